// rt_sched.cpp - controlled scheduler, happens-before monitor and explorer.
// Compiled WITHOUT sanitizer instrumentation.  See rt.hpp.
#include "rt.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <fstream>
#include <set>
#include <sstream>
#include <string>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __executable_start;
}

namespace {
const int MAXT = 24;           // threads of one execution
const int MAXDEC = 60000;      // decisions of one execution
const int MAXWORK = 60000;
const int MAXMSG = 3000;
const int TRACE = 1 << 18;
const int MAXOBJ = 1 << 14;
const u64 STEP_LIMIT = 60000;  // scheduling points of one execution

// ------------------------------------------------------------------ raw calls
long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
double now() {
    struct timespec ts;
    sys(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
u64 mix(u64 h, u64 v) {
    u64 z = h + 0x9e3779b97f4a7c15ull + v * 0xff51afd7ed558ccdull + (v >> 29);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

// -------------------------------------------------- shared with the explorer
struct Work {
    u32 dec;
    u8 alt, cost;
};
struct Slot {
    int scenario, bound, verbose;
    u32 nprefix;
    u8 prefix[MAXDEC];
    // results
    volatile int status;  // 0 running 1 complete 2 violation 3 pruned 4 crash/other
    u32 ndec;
    u8 chosen[MAXDEC];
    u32 nwork;
    Work work[MAXWORK];
    u64 points, accesses;
    int npreempt;
    char msg[MAXMSG];
    u32 ntrace;
    char trace[TRACE];
};
struct Shared {
    u64 table_mask;
    volatile u64 nstates, noutcomes, overflow;
    volatile u64 outcomes[1 << 16];
    volatile u64 table[];  // key (upper 60 bits) | cost + 1
};
Slot* slot;     // of this execution
Shared* shared;
bool g_thorough;

// true: new, or reached with fewer preemptions than before
bool visit(u64 key, int cost) {
    key &= ~15ull;
    if (!key) key = 16;
    u64 want = key | (u64)(cost + 1);
    u64 i = (key >> 4) * 0x9e3779b97f4a7c15ull;
    i = (i >> 20) & shared->table_mask;
    for (int probe = 0; probe < 4096; probe++, i = (i + 1) & shared->table_mask) {
        u64 v = __atomic_load_n(&shared->table[i], __ATOMIC_RELAXED);
        while (true) {
            if (v == 0) {
                if (__atomic_compare_exchange_n(&shared->table[i], &v, want, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                    __atomic_fetch_add(&shared->nstates, 1, __ATOMIC_RELAXED);
                    return true;
                }
                continue;
            }
            if ((v & ~15ull) != key) break;
            if ((v & 15) <= (want & 15)) return false;
            if (__atomic_compare_exchange_n(&shared->table[i], &v, want, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true;
        }
    }
    __atomic_fetch_add(&shared->overflow, 1, __ATOMIC_RELAXED);
    return true;  // table full: explore without pruning
}

// ------------------------------------------------------------ execution state
bool active = false;  // inside an execution (child process)
bool tracking = false;

enum Pend { P_RUN, P_LOCK, P_JOIN, P_COND, P_FUTEX, P_RD, P_WR, P_ONCE, P_YIELD, P_END, P_SEM, P_QUIET };
const char* const PN[] = {"running", "lock", "join", "wait", "futex", "rdlock", "wrlock", "once", "yield", "end", "semaphore"};

struct Obj {
    u64 addr;
    u64 hw, hr;       // happens-before hash: last write, reads since
    u32 vc[MAXT];     // release clock
    int owner, depth; // mutex / writer / one-time initialisation (thread id + 1)
    int readers, waiters;
    int done;         // one-time initialisation
    long count;       // semaphore
    u32 version;
};
struct Th {
    int id;
    volatile int token;
    bool finished, detached, joined;
    u32 vc[MAXT];
    u64 h, ident;
    int pend;
    Obj *pobj, *pmutex;
    int ptarget;
    bool signalled, timed, yielded;
    int flavour;
    int ignore;
    u32 nchild;
    // repeated loads
    u64 ld_addr, ld_pc;
    u32 ld_ver;
    int ld_rep;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    pthread_t real;
    char *stk, *stk_end;
    char *bump, *bump_end;
};
Th th[MAXT];
int nth;
__thread Th* me;
Obj* objs;  // open addressing
u32 ndec, nspurious, alone_yields;
u64 npoints, naccess;
int cost_so_far;
u64 fake_ns;

void vtrace(const char* fmt, va_list ap) {
    if (!slot || !slot->verbose) return;
    u32 n = slot->ntrace;
    if (n + 600 >= TRACE) return;
    int k = vsnprintf(slot->trace + n, 500, fmt, ap);
    if (k > 499) k = 499;
    slot->trace[n + k] = '\n';
    slot->ntrace = n + k + 1;
}
void trace(const char* fmt, ...) {
    if (!slot || !slot->verbose) return;
    va_list ap;
    va_start(ap, fmt);
    vtrace(fmt, ap);
    va_end(ap);
}
void finish(int status) {
    slot->ndec = ndec;
    slot->points = npoints;
    slot->accesses = naccess;
    slot->npreempt = cost_so_far;
    slot->status = status;
    sys(SYS_exit_group, status == 2 ? 77 : 0);
    __builtin_unreachable();
}
void vfail(const char* fmt, va_list ap) {
    vsnprintf(slot->msg, MAXMSG - 1, fmt, ap);
    trace("VIOLATION %s", slot->msg);
    finish(2);
}
[[noreturn]] void bad(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vfail(fmt, ap);
    va_end(ap);
    __builtin_unreachable();
}
u64 rel(const void* pc) { return (u64)pc - (u64)&__executable_start; }

Obj* obj(const volatile void* a) {
    u64 k = (u64)a;
    u32 i = (u32)(mix(k, 1) & (MAXOBJ - 1));
    for (int p = 0; p < MAXOBJ; p++, i = (i + 1) & (MAXOBJ - 1)) {
        if (objs[i].addr == k) return &objs[i];
        if (!objs[i].addr) {
            objs[i].addr = k;
            return &objs[i];
        }
    }
    bad("engine: too many synchronisation objects");
}
void join_vc(u32* a, const u32* b) {
    for (int i = 0; i < nth; i++)
        if (b[i] > a[i]) a[i] = b[i];
}

// ------------------------------------------------------------------- monitor
// one cell per 8 bytes: 8 slots; slot = clk:32 | pcidx:15 | tid:5 | freed | atomic | write | mask:8
struct Cell {
    u64 s[8];
};
const int RB = 22;  // region = 4 MB of application memory
Cell** regions;     // indexed by address >> RB
const void* pcs[1 << 15];
inline u64 slot_of(u32 clk, u32 pci, int tid, int freed, int atomic, int write, u8 mask) {
    return (u64)clk << 32 | (u64)pci << 17 | (u64)tid << 12 | (u64)freed << 10 | (u64)atomic << 9 | (u64)write << 8 | mask;
}
__attribute__((noinline)) Cell* new_region(u64 r) {
    size_t sz = ((size_t)1 << RB) / 8 * sizeof(Cell);
    void* p = (void*)sys(SYS_mmap, 0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ((long)p < 0 && (long)p > -4096) bad("engine: no memory for the monitor");
    regions[r] = (Cell*)p;
    return regions[r];
}
inline Cell* cell(u64 a) {
    u64 r = a >> RB;
    Cell* c = regions[r];
    if (__builtin_expect(!c, 0)) c = new_region(r);
    return c + ((a & (((u64)1 << RB) - 1)) >> 3);
}
inline u32 pc_index(const void* pc) {
    u32 i = (u32)(((u64)pc * 0x9e3779b97f4a7c15ull) >> 49);
    pcs[i] = pc;
    return i;
}
[[noreturn]] __attribute__((noinline)) void report(u64 a, int write, int atomic, const void* pc, u64 o, int size) {
    int t = (o >> 12) & 31;
    const void* opc = pcs[(o >> 17) & 32767];
    const char* kind = atomic ? (write ? "atomic write" : "atomic read") : write == 2 ? "free" : write ? "write" : "read";
    const char* okind = ((o >> 9) & 1) ? (((o >> 8) & 1) ? "atomic write" : "atomic read") : ((o >> 10) & 1) ? "free" : ((o >> 8) & 1) ? "write" : "read";
    if ((o >> 10) & 1)
        bad("%s of %d bytes by thread %d at @0x%lx after the memory was freed by thread %d at @0x%lx", write == 2 ? "second free" : kind, size,
            me->id, rel(pc), t, rel(opc));
    bad("data race: %s of %d bytes by thread %d at @0x%lx and %s by thread %d at @0x%lx are not ordered", kind, size, me->id, rel(pc), okind, t,
        rel(opc));
}
inline void access_cell(u64 a, u8 mask, int write, int atomic, const void* pc, int size) {
    Cell* c = cell(a);
    Th* T = me;
    u32 myclk = T->vc[T->id];
    u64 id = (u64)T->id;
    u64 key = slot_of(myclk, 0, T->id, 0, atomic, write, mask);
    const u64 PCM = ~((u64)32767 << 17);
    int freeslot = -1;
    for (int i = 0; i < 8; i++) {
        u64 o = c->s[i];
        if (!o) {
            if (freeslot < 0) freeslot = i;
            break;  // slots are filled from the front
        }
        if ((o & PCM) == key) return;
        u8 om = (u8)o;
        if (!(om & mask)) continue;
        if (__builtin_expect((o >> 10) & 1, 0)) report(a, write, atomic, pc, o, size);
        u64 ot = (o >> 12) & 31;
        int ow = (o >> 8) & 1, oa = (o >> 9) & 1;
        bool ordered = ot == id || (u32)(o >> 32) <= T->vc[ot];
        if (!ordered) {
            if ((ow || write) && !(oa && atomic)) report(a, write, atomic, pc, o, size);
            continue;
        }
        // older access that this one covers
        if ((om & ~mask) == 0 && (write || !ow) && (!atomic || oa)) {
            if (freeslot < 0) freeslot = i;
            else {
                // drop it: move the last slot here
                int l = i;
                while (l < 7 && c->s[l + 1]) l++;
                c->s[i] = c->s[l];
                c->s[l] = 0;
                i--;
            }
        }
    }
    if (freeslot < 0) freeslot = (int)((a >> 3) + myclk) & 7;
    c->s[freeslot] = key | (u64)pc_index(pc) << 17;
}
char *arena, *arena_end;
char *stacks, *stacks_end;
const size_t ARENA1 = (size_t)256 << 20, STACK1 = (size_t)1 << 20;

inline void access(const volatile void* p, size_t n, int write, int atomic, const void* pc) {
    if (!tracking) return;
    Th* T = me;
    if (__builtin_expect(!T || T->ignore, 0)) return;
    u64 a = (u64)p;
    naccess++;
    if (__builtin_expect(a < 4096, 0)) return;  // will crash by itself
    if (__builtin_expect(a >= (u64)stacks && a < (u64)stacks_end, 0)) {
        int t = (int)((a - (u64)stacks) / STACK1);
        if (t < nth && th[t].finished && t != T->id)
            bad("%s by thread %d at @0x%lx of the stack of thread %d, which has ended", write ? "write" : "read", T->id, rel(pc), t);
    }
    int size = (int)n;
    while (n) {
        u32 off = a & 7;
        u32 k = 8 - off;
        if (k > n) k = (u32)n;
        access_cell(a, (u8)(((1u << k) - 1) << off), write, atomic, pc, size);
        a += k;
        n -= k;
    }
}
void mark_freed(char* p, size_t n, const void* pc) {
    if (!tracking || !me || me->ignore) return;
    Th* T = me;
    u64 v = slot_of(T->vc[T->id], pc_index(pc), T->id, 1, 0, 1, 0xff);
    for (u64 a = (u64)p; a < (u64)p + n; a += 8) {
        Cell* c = cell(a);
        for (int i = 0; i < 8 && c->s[i]; i++) {
            u64 o = c->s[i];
            u64 ot = (o >> 12) & 31;
            if ((o >> 10) & 1) report(a, 2, 0, pc, o, (int)n);
            if (ot != (u64)T->id && (u32)(o >> 32) > T->vc[ot]) report(a, 2, 0, pc, o, (int)n);
            if (i) c->s[i] = 0;
        }
        c->s[0] = v;
    }
}

// ----------------------------------------------------------------- scheduler
void sync_write(Obj* o, u64 op) {
    u64 n = mix(mix(mix(me->h, o->hw), o->hr), op);
    me->h = n;
    o->hw = n;
    o->hr = 0;
    o->version++;
    alone_yields = 0;
}
void sync_read(Obj* o, u64 op) {
    me->h = mix(mix(me->h, o->hw), op);
    o->hr += mix(me->h, 77);
}
void acquire(Obj* o) { join_vc(me->vc, o->vc); }
void release_set(Obj* o) {
    memcpy(o->vc, me->vc, sizeof o->vc);
    me->vc[me->id]++;
}
void release_join(Obj* o) {
    join_vc(o->vc, me->vc);
    me->vc[me->id]++;
}
u64 state_hash() {
    u64 s = mix(nspurious, 5);
    for (int i = 0; i < nth; i++) {
        u64 x = mix(th[i].ident, th[i].h);
        x = mix(x, (u64)th[i].yielded * 2 + th[i].finished);
        s += mix(x, 3);
    }
    return mix(s, 9);
}
bool mutex_free(Obj* o, int t) { return o->owner == 0 || (o->owner == t + 1 && o->depth > 0); }
bool enabled(Th* t) {
    switch (t->pend) {
        case P_RUN: return true;
        case P_LOCK: return t->pobj->owner == 0;
        case P_JOIN: return th[t->ptarget].finished;
        case P_COND: return t->signalled && t->pmutex->owner == 0;
        case P_FUTEX: return t->signalled;
        case P_RD: return t->pobj->owner == 0;
        case P_WR: return t->pobj->owner == 0 && t->pobj->readers == 0;
        case P_ONCE: return t->pobj->owner == 0;
        case P_YIELD: return !t->yielded;
        case P_SEM: return t->pobj->count > 0;
        case P_END:
            for (int i = 0; i < nth; i++)
                if (i != t->id && !th[i].finished) return false;
            return true;
        case P_QUIET:
            for (int i = 0; i < nth; i++)
                if (i != t->id && !th[i].finished && th[i].pend != P_YIELD && th[i].pend != P_QUIET && enabled(&th[i])) return false;
            return true;
    }
    return false;
}
struct Opt {
    int tid, cost, flavour;
    u64 key;
};
int decide(Opt* o, int n) {
    // o[0] is the default; alternatives are recorded for the explorer
    if (n == 1) return 0;
    if (ndec >= MAXDEC) bad("engine: too many decisions");
    int c;
    if (ndec < slot->nprefix) {
        c = slot->prefix[ndec];
        if (c >= n) bad("engine: the execution is not deterministic (decision %u has %d alternatives, not %d)", ndec, n, c + 1);
    } else {
        c = 0;
        // the lowest cost is the default: find it
        for (int i = 1; i < n; i++)
            if (o[i].cost < o[c].cost) c = i;
        if (slot->verbose != 1) {
            for (int i = 0; i < n; i++) {
                if (i == c || cost_so_far + o[i].cost > slot->bound) continue;
                if (visit(o[i].key, cost_so_far + o[i].cost)) {
                    if (slot->nwork >= MAXWORK) bad("engine: too many alternatives");
                    Work& w = slot->work[slot->nwork++];
                    w.dec = ndec;
                    w.alt = (u8)i;
                    w.cost = (u8)(cost_so_far + o[i].cost);
                }
            }
            if (cost_so_far + o[c].cost > slot->bound) {
                slot->chosen[ndec] = (u8)c;
                finish(3);
            }
            if (!visit(o[c].key, cost_so_far + o[c].cost)) {
                slot->chosen[ndec] = (u8)c;
                finish(3);
            }
        }
    }
    slot->chosen[ndec++] = (u8)c;
    cost_so_far += o[c].cost;
    return c;
}
[[noreturn]] void deadlock() {
    char b[1500];
    int n = 0;
    for (int i = 0; i < nth && n < 1300; i++)
        if (!th[i].finished) {
            n += snprintf(b + n, sizeof b - n, " thread %d: %s", i, PN[th[i].pend]);
            if (th[i].pend == P_LOCK && th[i].pobj->owner)
                n += snprintf(b + n, sizeof b - n, " (held by %d)", th[i].pobj->owner - 1);
            if (th[i].pend == P_COND && th[i].signalled) n += snprintf(b + n, sizeof b - n, " (mutex held by %d)", th[i].pmutex->owner - 1);
            if (th[i].pend == P_JOIN) n += snprintf(b + n, sizeof b - n, " %d", th[i].ptarget);
            n += snprintf(b + n, sizeof b - n, ";");
        }
    bad("deadlock: no thread can continue:%s", b);
}
void wait_token(Th* t) {
    while (!__atomic_load_n(&t->token, __ATOMIC_ACQUIRE)) sys(SYS_futex, (long)&t->token, FUTEX_WAIT_PRIVATE, 0, 0);
    t->token = 0;
}
void give_token(Th* t) {
    __atomic_store_n(&t->token, 1, __ATOMIC_RELEASE);
    sys(SYS_futex, (long)&t->token, FUTEX_WAKE_PRIVATE, 1);
}
// the calling thread is about to do "pend"; returns when it may do it
int point_(int pend, Obj* o, Obj* m, int target, bool dying) {
    Th* T = me;
    T->pend = pend;
    T->pobj = o;
    T->pmutex = m;
    T->ptarget = target;
    T->flavour = 0;
    T->ld_addr = 0;
    if (nth == 1 && !dying) {
        if (pend == P_RUN || pend == P_YIELD || enabled(T)) {
            if (pend == P_YIELD && ++alone_yields > 2000) bad("livelock: the only thread waits for something that never happens");
            T->yielded = false;
            return 0;
        }
        if ((pend == P_COND || pend == P_FUTEX) && T->timed) return 1;
        deadlock();
    }
    if (++npoints > STEP_LIMIT) bad("no end: more than %lu scheduling points", (unsigned long)STEP_LIMIT);
    Opt opt[2 * MAXT];
    int n = 0;
    bool cur = !dying && enabled(T);
    u64 sh = state_hash();
    if (cur) opt[n++] = Opt{T->id, 0, 0, 0};
    bool normal = cur;
    for (int i = 0; i < nth; i++) {
        Th* t = &th[i];
        if (t->finished || (t == T && (cur || dying))) continue;
        if (enabled(t)) {
            opt[n++] = Opt{i, cur ? 1 : 0, 0, 0};
            normal = true;
        }
    }
    for (int i = 0; i < nth; i++) {
        Th* t = &th[i];
        if (t->finished || (t == T && dying) || t->signalled) continue;
        bool can = (t->pend == P_COND && t->pmutex->owner == 0) || t->pend == P_FUTEX;
        if (!can) continue;
        if (t->timed)
            opt[n++] = Opt{i, normal ? 1 : 0, 1, 0};
        else if (nspurious < 1 && normal)
            opt[n++] = Opt{i, 1, 1, 0};
    }
    if (!normal)
        for (int i = 0; i < nth; i++)  // time passes: sleepers continue
            if (!th[i].finished && !(&th[i] == T && dying) && th[i].pend == P_YIELD) opt[n++] = Opt{i, 0, 2, 0};
    bool any = false;
    for (int i = 0; i < n; i++) any |= opt[i].cost == 0;
    if (!any) deadlock();
    if (!normal) {
        if (++alone_yields > 500) bad("livelock: threads poll for something that never happens while all others are blocked");
    }
    for (int i = 0; i < n; i++) opt[i].key = mix(mix(sh, th[opt[i].tid].ident), opt[i].flavour);
    int c = decide(opt, n);
    Th* N = &th[opt[c].tid];
    N->flavour = opt[c].flavour;
    if (opt[c].flavour == 1 && !N->timed) nspurious++;
    for (int i = 0; i < nth; i++)
        if (i != N->id) th[i].yielded = false;
    N->yielded = false;
    if (N == T && !dying) return T->flavour;
    if (slot->verbose) trace("        -> thread %d%s", N->id, opt[c].cost ? " (preemption)" : "");
    give_token(N);
    if (dying) {
        while (true) {  // the underlying thread is never reused
            volatile int dead = 0;
            sys(SYS_futex, (long)&dead, FUTEX_WAIT_PRIVATE, 0, 0);
        }
    }
    wait_token(T);
    return T->flavour;
}
int point(int pend, Obj* o = nullptr, Obj* m = nullptr, int target = -1, bool dying = false) {
    int r = point_(pend, o, m, target, dying);
    me->h = mix(me->h, 200 + pend * 4 + r);
    return r;
}
inline bool on() { return active && me; }

void* trampoline(void* a) {
    Th* T = (Th*)a;
    me = T;
    wait_token(T);
    T->h = mix(T->h, 199);
    trace("[%d] starts", T->id);
    try {
        T->ret = T->fn(T->arg);
    } catch (abi::__forced_unwind&) {
        throw;
    }
    trace("[%d] ends", T->id);
    T->finished = true;
    point(P_RUN, nullptr, nullptr, -1, true);
    return nullptr;
}
template <class F>
F real(const char* n) {
    return (F)dlsym(RTLD_NEXT, n);
}
u64 mutex_kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }  // 1 recursive

void do_lock(pthread_mutex_t* m, const void* pc, const char* what) {
    Obj* o = obj(m);
    if (o->owner == me->id + 1) {
        if (mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE_NP) {
            o->depth++;
            return;
        }
        bad("deadlock: thread %d locks a mutex that it holds already, at @0x%lx", me->id, rel(pc));
    }
    point(P_LOCK, o);
    access(m, 1, 1, 1, pc);
    if (o->owner) bad("engine: lock");
    o->owner = me->id + 1;
    o->depth = 1;
    sync_write(o, 1);
    acquire(o);
    if (slot->verbose) trace("[%d] %s %lx at @0x%lx", me->id, what, (u64)m & 0xfffffff, rel(pc));
}
void do_unlock(pthread_mutex_t* m, const void* pc) {
    Obj* o = obj(m);
    if (o->owner != me->id + 1) bad("unlock of a mutex that thread %d does not hold, at @0x%lx", me->id, rel(pc));
    if (--o->depth) return;
    access(m, 1, 1, 1, pc);
    o->owner = 0;
    release_set(o);
    sync_write(o, 2);
    if (slot->verbose) trace("[%d] unlock %lx", me->id, (u64)m & 0xfffffff);
}
int do_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, const void* pc) {
    Obj *o = obj(c), *mo = obj(m);
    if (mo->owner != me->id + 1) bad("condition wait with a mutex that is not held, at @0x%lx", rel(pc));
    if (mo->depth != 1) bad("condition wait with a mutex held twice, at @0x%lx", rel(pc));
    point(P_RUN);
    access(c, 1, 1, 1, pc);
    access(m, 1, 1, 1, pc);
    mo->owner = 0;
    mo->depth = 0;
    release_set(mo);
    sync_write(mo, 3);
    sync_write(o, 4);
    me->signalled = false;
    me->timed = timed;
    o->waiters++;
    if (slot->verbose) trace("[%d] wait %lx at @0x%lx", me->id, (u64)c & 0xfffffff, rel(pc));
    int fl = point(P_COND, o, mo);
    bool sig = me->signalled;
    if (!sig) o->waiters--;
    me->signalled = false;
    me->timed = false;
    access(m, 1, 1, 1, pc);
    mo->owner = me->id + 1;
    mo->depth = 1;
    sync_write(mo, 5 + fl * 16 + sig);
    acquire(mo);
    if (slot->verbose) trace("[%d] woken %lx%s", me->id, (u64)c & 0xfffffff, sig ? "" : " (without signal)");
    return sig ? 0 : timed ? ETIMEDOUT : 0;
}
void do_signal(pthread_cond_t* c, bool all, const void* pc) {
    Obj* o = obj(c);
    point(P_RUN);
    access(c, 1, 1, 1, pc);
    sync_write(o, all ? 6 : 7);
    if (slot->verbose) trace("[%d] %s %lx", me->id, all ? "notify_all" : "notify_one", (u64)c & 0xfffffff);
    int w[MAXT], n = 0;
    for (int i = 0; i < nth; i++)
        if (!th[i].finished && th[i].pend == P_COND && th[i].pobj == o && !th[i].signalled) w[n++] = i;
    if (!n) return;
    if (all) {
        for (int i = 0; i < n; i++) th[w[i]].signalled = true;
        o->waiters = 0;
        return;
    }
    Opt op[MAXT];
    u64 sh = state_hash();
    for (int i = 0; i < n; i++) op[i] = Opt{w[i], 0, 0, mix(mix(mix(sh, th[w[i]].ident), 1234), me->ident)};
    int k = decide(op, n);
    me->h = mix(me->h, mix(th[w[k]].ident, 5));
    th[w[k]].signalled = true;
    o->waiters--;
}

// ------------------------------------------------------------------ atomics
bool acq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
bool rls(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void at_load(const volatile void* p, int n, int mo, const void* pc) {
    if (!on() || me->ignore) return;
    Obj* o = obj(p);
    if (tracking) {
        Th* T = me;
        if (T->ld_addr == (u64)p && T->ld_ver == o->version && T->ld_pc == (u64)pc) {
            if (++T->ld_rep >= 3) {
                access(p, n, 0, 1, pc);
                if (T->ld_rep < 50) return;
                T->yielded = true;
                point(P_YIELD);
                if (acq(mo)) acquire(o);
                sync_read(o, 10);
                return;
            }
        } else {
            T->ld_rep = 0;
        }
        int rep = T->ld_rep;
        point(P_RUN);
        T->ld_addr = (u64)p;
        T->ld_pc = (u64)pc;
        T->ld_ver = o->version;
        T->ld_rep = rep;
    }
    access(p, n, 0, 1, pc);
    if (acq(mo)) acquire(o);
    sync_read(o, 10);
}
void at_store(const volatile void* p, int n, int mo, const void* pc) {
    if (!on() || me->ignore) return;
    Obj* o = obj(p);
    if (tracking) point(P_RUN);
    me->ld_addr = 0;
    access(p, n, 1, 1, pc);
    if (rls(mo))
        release_set(o);
    else
        memset(o->vc, 0, sizeof o->vc);
    sync_write(o, 11);
}
void at_rmw(const volatile void* p, int n, int mo, const void* pc) {
    if (!on() || me->ignore) return;
    Obj* o = obj(p);
    // reference counts (acquire-release) are not scheduling points
    if (tracking && mo != __ATOMIC_ACQ_REL) point(P_RUN);
    me->ld_addr = 0;
    access(p, n, 1, 1, pc);
    if (acq(mo)) acquire(o);
    if (rls(mo)) release_join(o);
    sync_write(o, 12);
}
void at_trace(const char* op, const volatile void* p, u64 v, const void* pc, int mo) {
    if (slot->verbose && tracking && on() && mo != __ATOMIC_ACQ_REL && !me->ignore)
        trace("[%d] atomic %s %lx = %lu at @0x%lx", me->id, op, (u64)p & 0xfffffff, v, rel(pc));
}
}  // namespace

#define PC __builtin_return_address(0)
#define EXPORT extern "C" __attribute__((visibility("default")))

// ------------------------------------------------------------- tsan interface
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
#define RW(n)                                                                            \
    EXPORT void __tsan_read##n(void* p) { access(p, n, 0, 0, PC); }                      \
    EXPORT void __tsan_write##n(void* p) { access(p, n, 1, 0, PC); }                     \
    EXPORT void __tsan_unaligned_read##n(void* p) { access(p, n, 0, 0, PC); }            \
    EXPORT void __tsan_unaligned_write##n(void* p) { access(p, n, 1, 0, PC); }           \
    EXPORT void __tsan_volatile_read##n(void* p) { access(p, n, 0, 0, PC); }             \
    EXPORT void __tsan_volatile_write##n(void* p) { access(p, n, 1, 0, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, size_t n) { access(p, n, 0, 0, PC); }
EXPORT void __tsan_write_range(void* p, size_t n) { access(p, n, 1, 0, PC); }
EXPORT void __tsan_vptr_update(void** p, void* v) {
    if (*p != v) access(p, 8, 1, 0, PC);
    *(void* volatile*)p = v;
}
EXPORT void __tsan_vptr_read(void** p) { access(p, 8, 0, 0, PC); }
EXPORT void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(__ATOMIC_SEQ_CST); (void)mo; }
EXPORT void __tsan_atomic_signal_fence(int) {}
#define AT(n, T)                                                                                       \
    EXPORT T __tsan_atomic##n##_load(const volatile T* p, int mo) {                                    \
        at_load(p, n / 8, mo, PC);                                                                     \
        T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                    \
        at_trace("load", p, (u64)v, PC, mo);                                                           \
        return v;                                                                                      \
    }                                                                                                  \
    EXPORT void __tsan_atomic##n##_store(volatile T* p, T v, int mo) {                                 \
        at_store(p, n / 8, mo, PC);                                                                    \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                      \
        at_trace("store", p, (u64)v, PC, mo);                                                          \
    }                                                                                                  \
    EXPORT T __tsan_atomic##n##_exchange(volatile T* p, T v, int mo) {                                 \
        at_rmw(p, n / 8, mo, PC);                                                                      \
        at_trace("exchange", p, (u64)v, PC, mo);                                                       \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                            \
    }                                                                                                  \
    EXPORT int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) {     \
        at_rmw(p, n / 8, mo, PC);                                                                      \
        at_trace("compare_exchange", p, (u64)v, PC, mo);                                               \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);        \
    }                                                                                                  \
    EXPORT int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) {       \
        at_rmw(p, n / 8, mo, PC);                                                                      \
        at_trace("compare_exchange", p, (u64)v, PC, mo);                                               \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);        \
    }                                                                                                  \
    EXPORT T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) {           \
        at_rmw(p, n / 8, mo, PC);                                                                      \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);              \
        return e;                                                                                      \
    }
#define ATF(n, T, op)                                                                                  \
    EXPORT T __tsan_atomic##n##_fetch_##op(volatile T* p, T v, int mo) {                               \
        at_rmw(p, n / 8, mo, PC);                                                                      \
        T r = __atomic_fetch_##op(p, v, __ATOMIC_SEQ_CST);                                             \
        at_trace("fetch_" #op, p, (u64)r, PC, mo);                                                     \
        return r;                                                                                      \
    }
#define ATA(n, T) AT(n, T) ATF(n, T, add) ATF(n, T, sub) ATF(n, T, and) ATF(n, T, or) ATF(n, T, xor) ATF(n, T, nand)
ATA(8, u8) ATA(16, uint16_t) ATA(32, u32) ATA(64, u64)

// --wrap'ed memory functions, called from instrumented objects only
EXPORT void* __real_memcpy(void*, const void*, size_t);
EXPORT void* __real_memmove(void*, const void*, size_t);
EXPORT void* __real_memset(void*, int, size_t);
EXPORT int __real_memcmp(const void*, const void*, size_t);
EXPORT size_t __real_strlen(const char*);
EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (n) access(s, n, 0, 0, PC), access(d, n, 1, 0, PC);
    return __real_memcpy(d, s, n);
}
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (n) access(s, n, 0, 0, PC), access(d, n, 1, 0, PC);
    return __real_memmove(d, s, n);
}
EXPORT void* __wrap_memset(void* d, int c, size_t n) {
    if (n) access(d, n, 1, 0, PC);
    return __real_memset(d, c, n);
}
EXPORT int __wrap_memcmp(const void* a, const void* b, size_t n) {
    if (n) access(a, n, 0, 0, PC), access(b, n, 0, 0, PC);
    return __real_memcmp(a, b, n);
}
EXPORT size_t __wrap_strlen(const char* a) {
    size_t n = __real_strlen(a);
    access(a, n + 1, 0, 0, PC);
    return n;
}
// red-black trees live in libstdc++: inserting and erasing write the tree's
// header, iterating reads the node
struct Node {
    int color;
    Node *parent, *left, *right;
};
EXPORT void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, Node*, Node*, Node*);
EXPORT void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, Node* x, Node* p, Node* h) {
    access(x, 32, 1, 0, PC);
    access(h, 32, 1, 0, PC);
    access(p, 32, 1, 0, PC);
    __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}
EXPORT Node* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(Node*, Node*);
EXPORT Node* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(Node* z, Node* h) {
    access(z, 32, 1, 0, PC);
    access(h, 32, 1, 0, PC);
    return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h);
}
#define RBI(sym)                                   \
    EXPORT Node* __real_##sym(Node*);              \
    EXPORT Node* __wrap_##sym(Node* n) {           \
        access(n, 32, 0, 0, PC);                   \
        return __real_##sym(n);                    \
    }
RBI(_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base)
RBI(_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base)
RBI(_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base)
RBI(_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base)

// -------------------------------------------------------------------- memory
namespace {
inline bool in_arena(void* p) { return (char*)p >= arena && (char*)p < arena_end; }
void* alloc(size_t n, size_t al) {
    Th* T = me ? me : &th[0];
    if (al < 16) al = 16;
    u64 p = (u64)T->bump + 16;
    p = (p + al - 1) / al * al;
    if (n > ARENA1 / 2 || (char*)p + n + 32 > T->bump_end) {
        errno = ENOMEM;
        return nullptr;
    }
    ((size_t*)p)[-1] = n;
    T->bump = (char*)((p + n + 15) / 16 * 16);
    return (void*)p;
}
void dealloc(void* p, const void* pc) {
    size_t n = ((size_t*)p)[-1];
    mark_freed((char*)p, (n + 7) / 8 * 8 + (n ? 0 : 8), pc);
}
}  // namespace
EXPORT void* malloc(size_t n) { return active ? alloc(n, 16) : __libc_malloc(n); }
EXPORT void free(void* p) {
    if (!p) return;
    if (in_arena(p)) {
        if (active) dealloc(p, PC);
        return;
    }
    if (!active) __libc_free(p);
}
EXPORT void* calloc(size_t a, size_t b) {
    if (!active) return __libc_calloc(a, b);
    if (b && a > ARENA1 / b) return nullptr;
    return alloc(a * b, 16);  // fresh memory is zero
}
EXPORT void* realloc(void* p, size_t n) {
    if (!active && !in_arena(p)) return __libc_realloc(p, n);
    if (!p) return malloc(n);
    void* q = malloc(n);
    if (!q) return q;
    size_t o = in_arena(p) ? ((size_t*)p)[-1] : malloc_usable_size(p);
    __real_memcpy(q, p, o < n ? o : n);
    free(p);
    return q;
}
EXPORT void* memalign(size_t al, size_t n) { return active ? alloc(n, al) : __libc_memalign(al, n); }
EXPORT void* aligned_alloc(size_t al, size_t n) { return active ? alloc(n, al) : __libc_memalign(al, n); }
EXPORT int posix_memalign(void** p, size_t al, size_t n) {
    *p = active ? alloc(n, al) : __libc_memalign(al, n);
    return *p ? 0 : ENOMEM;
}

// ------------------------------------------------------------------- pthreads
EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    F r = real<F>("pthread_create");
    if (!on()) return r(out, attr, fn, arg);
    if (nth >= MAXT) bad("engine: too many threads");
    Th* T = &th[nth];
    memset((void*)T, 0, sizeof *T);
    T->id = nth;
    T->ident = mix(me->h, mix(me->ident, ++me->nchild));
    me->h = mix(me->h, 20);
    T->h = T->ident;
    memcpy(T->vc, me->vc, sizeof T->vc);
    T->vc[T->id] = 1;
    me->vc[me->id]++;
    T->pend = P_RUN;
    T->fn = fn;
    T->arg = arg;
    T->stk = stacks + (size_t)T->id * STACK1;
    T->bump = arena + (size_t)T->id * ARENA1;
    T->bump_end = T->bump + ARENA1;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, T->stk, STACK1);
    if (r(&T->real, &a, trampoline, T)) bad("engine: pthread_create");
    nth++;
    tracking = true;
    *out = T->real;
    trace("[%d] creates thread %d at @0x%lx", me->id, T->id, rel(PC));
    return 0;
}
static Th* by_handle(pthread_t t) {
    for (int i = 1; i < nth; i++)
        if (th[i].real == t) return &th[i];
    return nullptr;
}
EXPORT int pthread_join(pthread_t t, void** ret) {
    if (!on()) {
        typedef int (*F)(pthread_t, void**);
        return real<F>("pthread_join")(t, ret);
    }
    Th* T = by_handle(t);
    if (!T || T->joined || T->detached) bad("join of a thread that does not exist or is joined or detached already, at @0x%lx", rel(PC));
    if (T == me) return EDEADLK;
    point(P_JOIN, nullptr, nullptr, T->id);
    if (T->joined || T->detached) bad("thread %d is joined twice, at @0x%lx", T->id, rel(PC));
    T->joined = true;
    join_vc(me->vc, T->vc);
    me->h = mix(mix(me->h, T->h), 21);
    trace("[%d] joined thread %d", me->id, T->id);
    if (ret) *ret = T->ret;
    return 0;
}
EXPORT int pthread_detach(pthread_t t) {
    if (!on()) {
        typedef int (*F)(pthread_t);
        return real<F>("pthread_detach")(t);
    }
    Th* T = by_handle(t);
    if (!T || T->joined || T->detached) bad("detach of a thread that does not exist or is joined or detached already, at @0x%lx", rel(PC));
    T->detached = true;
    return 0;
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m);
    int k = 0;
    if (a) pthread_mutexattr_gettype(a, &k);
    m->__data.__kind = k;
    if (on()) {
        Obj* o = obj(m);
        o->owner = o->depth = 0;
        access(m, 1, 1, 1, PC);
    }
    return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!on()) return 0;
    Obj* o = obj(m);
    if (o->owner) bad("a mutex is destroyed while thread %d holds it, at @0x%lx", o->owner - 1, rel(PC));
    access(m, 1, 1, 1, PC);
    return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!on()) return 0;
    do_lock(m, PC, "lock");
    return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!on()) return 0;
    Obj* o = obj(m);
    point(P_RUN);
    access(m, 1, 1, 1, PC);
    if (o->owner == me->id + 1 && mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE_NP) {
        o->depth++;
        return 0;
    }
    sync_write(o, 8);
    if (o->owner) return EBUSY;
    o->owner = me->id + 1;
    o->depth = 1;
    acquire(o);
    return 0;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) {
    if (!on()) return 0;
    do_lock(m, PC, "lock");
    return 0;
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) {
    if (!on()) return 0;
    do_lock(m, PC, "lock");
    return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!on()) return 0;
    do_unlock(m, PC);
    return 0;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
    memset(c, 0, sizeof *c);
    return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) {
    if (!on()) return 0;
    Obj* o = obj(c);
    if (o->waiters > 0) bad("a condition variable is destroyed while a thread waits for it, at @0x%lx", rel(PC));
    access(c, 1, 1, 1, PC);
    return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!on()) return 0;
    return do_wait(c, m, false, PC);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
    if (!on()) return 0;
    return do_wait(c, m, true, PC);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) {
    if (!on()) return 0;
    return do_wait(c, m, true, PC);
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
    if (on()) do_signal(c, false, PC);
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
    if (on()) do_signal(c, true, PC);
    return 0;
}
EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) {
    memset(l, 0, sizeof *l);
    return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t* l) {
    if (on()) access(l, 1, 1, 1, PC);
    return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!on()) return 0;
    Obj* o = obj(l);
    if (o->owner == me->id + 1) bad("deadlock: read lock by the writer");
    point(P_RD, o);
    access(l, 1, 1, 1, PC);
    o->readers++;
    sync_write(o, 30);
    acquire(o);
    return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!on()) return 0;
    Obj* o = obj(l);
    if (o->owner == me->id + 1) bad("deadlock: write lock by the writer");
    point(P_WR, o);
    access(l, 1, 1, 1, PC);
    o->owner = me->id + 1;
    sync_write(o, 31);
    acquire(o);
    return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!on()) return 0;
    Obj* o = obj(l);
    access(l, 1, 1, 1, PC);
    if (o->owner == me->id + 1)
        o->owner = 0;
    else if (o->readers > 0)
        o->readers--;
    else
        bad("unlock of a read-write lock that is not held, at @0x%lx", rel(PC));
    release_join(o);
    sync_write(o, 32);
    return 0;
}
EXPORT int pthread_once(pthread_once_t* c, void (*f)()) {
    if (!on()) {
        if (*c == 2) return 0;
        *c = 2;
        f();
        return 0;
    }
    Obj* o = obj(c);
    if (*c == 2) o->done = 1;
    point(P_ONCE, o);
    access(c, 4, 1, 1, PC);
    sync_write(o, 40);
    acquire(o);
    if (o->done) return 0;
    o->owner = me->id + 1;
    try {
        f();
    } catch (...) {
        o->owner = 0;
        throw;
    }
    o->owner = 0;
    o->done = 1;
    *c = 2;
    release_set(o);
    sync_write(o, 41);
    return 0;
}
EXPORT int __cxa_guard_acquire(long long* g) {
    if (__atomic_load_n((u8*)g, __ATOMIC_ACQUIRE)) {
        if (on()) acquire(obj(g));
        return 0;
    }
    if (!on()) return 1;
    Obj* o = obj(g);
    if (o->owner == me->id + 1) bad("recursive initialization of a static variable");
    point(P_ONCE, o);
    sync_write(o, 42);
    acquire(o);
    if (*(u8*)g) return 0;
    o->owner = me->id + 1;
    return 1;
}
EXPORT void __cxa_guard_release(long long* g) {
    *(u8*)g = 1;
    if (!on()) return;
    Obj* o = obj(g);
    o->owner = 0;
    release_set(o);
    sync_write(o, 43);
}
EXPORT void __cxa_guard_abort(long long* g) {
    if (!on()) return;
    Obj* o = obj(g);
    o->owner = 0;
    release_set(o);
    sync_write(o, 44);
}
EXPORT int sem_init(sem_t* s, int, unsigned v) {
    memset(s, 0, sizeof *s);
    if (on()) obj(s)->count = v;
    return 0;
}
EXPORT int sem_destroy(sem_t*) { return 0; }
EXPORT int sem_wait(sem_t* s) {
    if (!on()) return 0;
    Obj* o = obj(s);
    point(P_SEM, o);
    access(s, 1, 1, 1, PC);
    o->count--;
    sync_write(o, 50);
    acquire(o);
    return 0;
}
EXPORT int sem_post(sem_t* s) {
    if (!on()) return 0;
    Obj* o = obj(s);
    point(P_RUN);
    access(s, 1, 1, 1, PC);
    o->count++;
    release_join(o);
    sync_write(o, 51);
    return 0;
}
static void do_yield(u64 ns, const void* pc) {
    fake_ns += ns;
    if (slot->verbose) trace("[%d] sleeps at @0x%lx", me->id, rel(pc));
    if (!tracking) return;
    me->yielded = true;
    point(P_YIELD);
    me->h = mix(me->h, 60);
}
EXPORT int sched_yield() {
    if (on()) do_yield(1000, PC);
    return 0;
}
EXPORT int usleep(useconds_t u) {
    if (on())
        do_yield((u64)u * 1000, PC);
    else {
        struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
        sys(SYS_nanosleep, (long)&ts, 0);
    }
    return 0;
}
EXPORT unsigned sleep(unsigned s) {
    if (on()) do_yield((u64)s * 1000000000ull, PC);
    return 0;
}
EXPORT int nanosleep(const struct timespec* t, struct timespec* r) {
    if (on()) {
        do_yield((u64)t->tv_sec * 1000000000ull + t->tv_nsec, PC);
        return 0;
    }
    return (int)sys(SYS_nanosleep, (long)t, (long)r);
}
EXPORT int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec*) {
    if (on()) do_yield((u64)t->tv_sec * 1000000000ull + t->tv_nsec, PC);
    return 0;
}
EXPORT int clock_gettime(clockid_t c, struct timespec* t) {
    if (!active) return (int)sys(SYS_clock_gettime, c, (long)t);
    u64 n = 1700000000000000000ull + (fake_ns += 1000);
    t->tv_sec = n / 1000000000ull;
    t->tv_nsec = n % 1000000000ull;
    return 0;
}
// futexes, as used by std::future and std::atomic::wait in libstdc++
EXPORT long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && on()) {
        int op = (int)a[1] & 127;
        Obj* o = obj((void*)a[0]);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point(P_RUN);
            access((void*)a[0], 4, 0, 1, PC);
            sync_write(o, 70);
            if (*(volatile int*)a[0] != (int)a[2]) {
                errno = EAGAIN;
                return -1;
            }
            me->signalled = false;
            me->timed = a[3] != 0;
            int fl = point(P_FUTEX, o);
            bool sig = me->signalled;
            me->h = mix(me->h, 71 + fl);
            me->signalled = false;
            if (!sig && me->timed) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            point(P_RUN);
            sync_write(o, 72);
            int k = 0;
            for (int i = 0; i < nth && k < (int)a[2]; i++)
                if (!th[i].finished && th[i].pend == P_FUTEX && th[i].pobj == o && !th[i].signalled) {
                    th[i].signalled = true;
                    k++;
                }
            return k;
        }
    }
    long r = sys(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// --------------------------------------------------------------- harness API
namespace rt {
struct Scen {
    const char* name;
    Body body;
    int bq, bt;
};
static std::vector<Scen>& registry() {
    static std::vector<Scen> r;
    return r;
}
Register::Register(const char* n, Body b, int q, int t) { registry().push_back(Scen{n, b, q, t}); }
bool thorough() { return g_thorough; }
bool verbose() { return slot && slot->verbose; }
int self() { return me ? me->id : 0; }
int choose(int n) {
    if (n <= 1) return 0;
    Opt o[200];
    if (n > 200) bad("engine: choose(%d)", n);
    u64 sh = state_hash();
    for (int i = 0; i < n; i++) o[i] = Opt{me->id, 0, 0, mix(mix(mix(sh, me->ident), 4321), i)};
    int c = decide(o, n);
    me->h = mix(me->h, 100 + c);
    return c;
}
void fail(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vfail(fmt, ap);
    va_end(ap);
    __builtin_unreachable();
}
void note(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vtrace(fmt, ap);
    va_end(ap);
}
void outcome(std::string const& s) {
    u64 h = 7;
    for (char c : s) h = mix(h, (u8)c);
    if (!h) h = 1;
    u32 i = h & 65535;
    for (int p = 0; p < 65536; p++, i = (i + 1) & 65535) {
        u64 v = shared->outcomes[i];
        if (v == h) return;
        if (!v) {
            if (__atomic_compare_exchange_n(&shared->outcomes[i], &v, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_fetch_add(&shared->noutcomes, 1, __ATOMIC_RELAXED);
                return;
            }
            if (v == h) return;
        }
    }
}
void quiesce() {
    if (!on() || !tracking) return;
    point(P_QUIET);
    me->h = mix(me->h, 61);
}
Ignore::Ignore() {
    if (me) me->ignore++;
}
Ignore::~Ignore() {
    if (me) me->ignore--;
}
}  // namespace rt

// ------------------------------------------------------------------- explorer
namespace {
void on_terminate() {
    const char* what = "";
    std::string w;
    if (std::exception_ptr p = std::current_exception()) {
        try {
            std::rethrow_exception(p);
        } catch (std::exception& e) {
            bad("std::terminate: uncaught exception in thread %d: %s", me ? me->id : -1, e.what());
        } catch (...) {
            what = "uncaught exception of unknown type";
        }
    } else
        what = "no exception (a joinable thread was destroyed or assigned?)";
    bad("std::terminate in thread %d: %s", me ? me->id : -1, what);
}
void on_crash(int sig, siginfo_t* si, void* uc) {
    u64 pc = (u64)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    bad("crash: signal %d in thread %d at @0x%lx (address %p)", sig, me ? me->id : -1, pc - (u64)&__executable_start, si->si_addr);
}
[[noreturn]] void run_child(Slot* s) {
    slot = s;
    s->status = 0;
    s->ndec = s->nwork = s->ntrace = 0;
    s->msg[0] = 0;
    std::set_terminate(on_terminate);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_crash;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGABRT, &sa, nullptr);
    sigaction(SIGILL, &sa, nullptr);
    alarm(120);
    nth = 1;
    Th* T = &th[0];
    memset((void*)T, 0, sizeof *T);
    T->ident = 1;
    T->h = 1;
    T->vc[0] = 1;
    T->bump = arena;
    T->bump_end = arena + ARENA1;
    T->real = pthread_self();
    me = T;
    srand(1);
    active = true;
    try {
        rt::registry()[s->scenario].body();
    } catch (std::exception& e) {
        bad("unexpected exception in the main thread: %s", e.what());
    } catch (...) {
        bad("unexpected exception in the main thread");
    }
    if (nth > 1) {
        trace("[0] end of the scenario");
        point(P_END);
    }
    finish(1);
}
[[noreturn]] void server(Slot* s, int rd, int wr, int id) {
    while (true) {
        char c;
        if (read(rd, &c, 1) != 1) _exit(0);
        pid_t pid = fork();
        if (pid == 0) run_child(s);
        int st = 0;
        while (waitpid(pid, &st, 0) != pid) {
        }
        if (s->status == 0) {
            s->status = 4;
            if (WIFSIGNALED(st))
                snprintf(s->msg, MAXMSG, WTERMSIG(st) == SIGALRM ? "hang: the execution does not end (signal %d)" : "crash: killed by signal %d",
                         WTERMSIG(st));
            else
                snprintf(s->msg, MAXMSG, "the process ended by itself (status %d)", WEXITSTATUS(st));
        }
        c = (char)id;
        if (write(wr, &c, 1) != 1) _exit(0);
    }
}
std::string esc(std::string const& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126)
            o += ' ';
        else
            o += c;
    }
    return o;
}
std::string exe_path;
std::string symbolize(std::string const& in) {
    // replaces @0x... by function and line
    std::vector<std::string> ad;
    std::set<std::string> seen;
    for (size_t i = 0; (i = in.find("@0x", i)) != std::string::npos;) {
        size_t j = i + 3;
        while (j < in.size() && isxdigit((u8)in[j])) j++;
        std::string a = in.substr(i + 1, j - i - 1);
        if (seen.insert(a).second) ad.push_back(a);
        i = j;
    }
    std::string out = in;
    for (size_t b = 0; b < ad.size(); b += 100) {
        std::string cmd = "addr2line -Csfe '" + exe_path + "'";
        for (size_t k = b; k < ad.size() && k < b + 100; k++) {
            char t[40];
            snprintf(t, sizeof t, " 0x%llx", strtoull(ad[k].c_str(), 0, 16) - 1);
            cmd += t;
        }
        FILE* f = popen((cmd + " 2>/dev/null").c_str(), "r");
        if (!f) return in;
        char fn[4000], ln[4000];
        for (size_t k = b; k < ad.size() && k < b + 100; k++) {
            if (!fgets(fn, sizeof fn, f) || !fgets(ln, sizeof ln, f)) break;
            std::string F(fn), L(ln);
            if (!F.empty()) F.pop_back();
            if (!L.empty()) L.pop_back();
            // shorten template arguments
            std::string g;
            int depth = 0;
            for (char c : F) {
                if (c == '<') depth++;
                if (!depth) g += c;
                if (c == '>' && depth) depth--;
            }
            size_t q = g.find('(');
            if (q != std::string::npos && q) g = g.substr(0, q);
            if (F[0] == '?') continue;
            std::string key = "@" + ad[k], val = g + " (" + L + ")";
            for (size_t i = 0; (i = out.find(key, i)) != std::string::npos;) {
                size_t e = i + key.size();
                if (e < out.size() && isxdigit((u8)out[e])) {
                    i = e;
                    continue;
                }
                out.replace(i, key.size(), val);
                i += val.size();
            }
        }
        pclose(f);
    }
    return out;
}
struct Item {
    std::string prefix;
};
}  // namespace

int main(int argc, char** argv) {
#ifdef ADDR_NO_RANDOMIZE
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("RT_REEXEC")) {
        if (personality(per | ADDR_NO_RANDOMIZE) != -1) {
            setenv("RT_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
#endif
    std::string tier = "quick", out, only, replay, replay_dir = "replays", prop = "?";
    int jobs = 8, xbound = -1;
    double budget = 600;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = nx();
        else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--out") out = nx();
        else if (a == "--property") prop = nx();
        else if (a == "--replay-dir") replay_dir = nx();
        else if (a == "--budget") budget = atof(nx().c_str());
        else if (a == "--only") only = nx();
        else if (a == "--bound") xbound = atoi(nx().c_str());
        else if (a == "--replay") replay = nx();
        else if (a == "--known") nx();
    }
    {
        char b[4000];
        ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1);
        exe_path = k > 0 ? std::string(b, k) : argv[0];
    }
    std::string rchoices;
    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string l;
        while (std::getline(f, l)) {
            if (l.compare(0, 10, "scenario: ") == 0) only = l.substr(10);
            if (l.compare(0, 6, "tier: ") == 0) tier = l.substr(6);
            if (l.compare(0, 8, "choices:") == 0) {
                std::istringstream is(l.substr(8));
                int c;
                while (is >> c) rchoices += (char)c;
            }
        }
        jobs = 1;
    }
    g_thorough = tier == "thorough";
    auto map = [](size_t n, int fl) {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, fl | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            exit(3);
        }
        return p;
    };
    u64 tabn = (u64)1 << 25;
    shared = (Shared*)map(sizeof(Shared) + tabn * 8, MAP_SHARED);
    shared->table_mask = tabn - 1;
    arena = (char*)map(ARENA1 * MAXT, MAP_PRIVATE);
    arena_end = arena + ARENA1 * MAXT;
    stacks = (char*)map(STACK1 * MAXT, MAP_PRIVATE);
    stacks_end = stacks + STACK1 * MAXT;
    madvise(arena, ARENA1 * MAXT, MADV_NOHUGEPAGE);
    madvise(stacks, STACK1 * MAXT, MADV_NOHUGEPAGE);
    regions = (Cell**)map(((size_t)1 << (47 - RB)) * sizeof(Cell*), MAP_PRIVATE);
    objs = (Obj*)map(sizeof(Obj) * MAXOBJ, MAP_PRIVATE);
    std::vector<Slot*> slots(jobs);
    std::vector<int> wfd(jobs);
    int done[2];
    if (pipe(done)) return 3;
    std::vector<pid_t> pids;
    signal(SIGPIPE, SIG_IGN);
    for (int w = 0; w < jobs; w++) slots[w] = (Slot*)map(sizeof(Slot), MAP_SHARED);
    fflush(stdout);
    for (int w = 0; w < jobs; w++) {
        int p[2];
        if (pipe(p)) return 3;
        pid_t pid = fork();
        if (pid == 0) {
            close(p[1]);
            close(done[0]);
            for (int v = 0; v < w; v++) close(wfd[v]);
            if (!getenv("VX_STDERR")) {
                int ef = open("/dev/null", O_WRONLY);
                dup2(ef, 2);
                dup2(ef, 1);
            }
            server(slots[w], p[0], done[1], w);
        }
        close(p[0]);
        wfd[w] = p[1];
        pids.push_back(pid);
    }
    close(done[1]);
    auto start = [&](int w, int sc, int bound, int verbose, std::string const& pre) {
        Slot* s = slots[w];
        s->scenario = sc;
        s->bound = bound;
        s->verbose = verbose;
        s->nprefix = (u32)pre.size();
        memcpy(s->prefix, pre.data(), pre.size());
        char c = 1;
        if (write(wfd[w], &c, 1) != 1) exit(3);
    };
    auto finished = [&]() {
        char c;
        if (read(done[0], &c, 1) != 1) {
            fprintf(stderr, "engine: a worker died\n");
            exit(3);
        }
        return (int)c;
    };
    auto stop = [&]() {
        for (int w = 0; w < jobs; w++) close(wfd[w]);
        for (pid_t p : pids) {
            kill(p, SIGKILL);
            waitpid(p, nullptr, 0);
        }
    };
    auto& reg = rt::registry();
    double t0 = now();
    std::ostringstream js;
    js << "{\"scenarios\":[";
    bool first = true, exhaustive = true, violated = false, broken = false;
    u64 T_ex = 0, T_ops = 0, T_st = 0, T_out = 0;
    std::string rpath, vmsg;
    for (size_t sc = 0; sc < reg.size() && !violated; sc++) {
        if (!only.empty() && only != reg[sc].name) continue;
        int bound = xbound >= 0 ? xbound : g_thorough ? reg[sc].bt : reg[sc].bq;
        if (!replay.empty()) {
            start(0, (int)sc, bound, 1, rchoices);
            finished();
            Slot* s = slots[0];
            printf("%s%s\n", symbolize(std::string(s->trace, s->ntrace)).c_str(),
                   s->status == 2 || s->status == 4 ? ("RESULT violation: " + symbolize(s->msg)).c_str() : "RESULT ok");
            stop();
            return s->status == 2 || s->status == 4;
        }
        double ts = now();
        memset((void*)shared->outcomes, 0, sizeof shared->outcomes);
        shared->nstates = shared->noutcomes = 0;
        madvise((char*)shared + 4096 * ((sizeof(Shared) + 4095) / 4096), tabn * 8 - 8192, MADV_REMOVE);
        for (u64 i = 0; i < 2048; i++) shared->table[i] = 0;
        for (u64 i = tabn - 4096; i < tabn; i++) shared->table[i] = 0;
        std::vector<std::vector<std::string>> work(bound + 2);
        work[0].push_back("");
        std::vector<bool> busy(jobs, false);
        int nbusy = 0;
        u64 ex = 0, pruned = 0, ops = 0, acc = 0, level = 0;
        bool out_of_time = false;
        std::vector<std::string> sample_prefix;
        std::string vchoices;
        bool vio = false;
        u64 next_sample = 1;
        while (true) {
            // give work to idle servers, fewest preemptions first
            for (int w = 0; w < jobs && !vio && !out_of_time; w++) {
                if (busy[w]) continue;
                for (auto& q : work)
                    if (!q.empty()) {
                        level = &q - &work[0];
                        std::string pre = std::move(q.back());
                        q.pop_back();
                        start(w, (int)sc, bound, 0, pre);
                        busy[w] = true;
                        nbusy++;
                        break;
                    }
            }
            if (!nbusy) break;
            int w = finished();
            busy[w] = false;
            nbusy--;
            Slot* s = slots[w];
            ops += s->points;
            acc += s->accesses;
            if (s->status == 1) ex++;
            else if (s->status == 3) pruned++;
            else if (!vio) {
                vio = true;
                vmsg = s->msg;
                // a crashed child leaves no decision list: the prefix reproduces it
                vchoices = s->status == 2 ? std::string((char*)s->chosen, s->ndec) : std::string((char*)s->prefix, s->nprefix);
            }
            if (s->status == 1 && ex >= next_sample && sample_prefix.size() < 2) {
                sample_prefix.push_back(std::string((char*)s->chosen, s->ndec));
                next_sample = 50;
            }
            if (s->status == 1 || s->status == 3)
                for (u32 i = 0; i < s->nwork; i++) {
                    Work& k = s->work[i];
                    std::string pre((char*)s->chosen, k.dec);
                    pre += (char)k.alt;
                    work[k.cost].push_back(std::move(pre));
                }
            if (now() - t0 > budget) out_of_time = true;
        }
        if (vio) {
            // replay, with a trace
            start(0, (int)sc, bound, 1, vchoices);
            finished();
            Slot* s = slots[0];
            bool again = s->status == 2 || s->status == 4;
            rpath = replay_dir + "/" + prop + "-" + reg[sc].name + ".replay";
            std::ofstream f(rpath);
            f << "property: " << prop << "\nscenario: " << reg[sc].name << "\ntier: " << tier << "\nchoices:";
            for (char c : vchoices) f << " " << (int)(u8)c;
            std::string m = symbolize(again ? s->msg : vmsg);
            f << "\nresult: " << m << "\ntrace:\n" << symbolize(std::string(s->trace, s->ntrace));
            vmsg = m;
            if (!again || vmsg.compare(0, 7, "engine:") == 0) {
                fprintf(stderr, "engine error in scenario %s: %s (%s)\n", reg[sc].name, vmsg.c_str(), again ? "reproduced" : "not reproduced");
                broken = true;
                break;
            }
            violated = true;
            printf("  scenario %s: %s\n", reg[sc].name, vmsg.c_str());
        }
        std::string samples;
        for (auto& p : sample_prefix) {
            start(0, (int)sc, bound, 1, p);
            finished();
            if (!samples.empty()) samples += ",";
            samples += "\"" + esc(symbolize(std::string(slots[0]->trace, slots[0]->ntrace < 1500 ? slots[0]->ntrace : 1500))) + "\"";
        }
        bool full = !vio && !out_of_time && shared->overflow == 0;
        for (auto& q : work) full &= q.empty();
        exhaustive &= full;
        T_ex += ex;
        T_ops += ops;
        T_st += shared->nstates;
        T_out += shared->noutcomes;
        js << (first ? "" : ",") << "{\"name\":\"" << reg[sc].name << "\",\"executions\":" << ex << ",\"cut_off\":" << pruned
           << ",\"operations\":" << ops << ",\"memory_accesses\":" << acc << ",\"preemption_bound\":" << bound
           << ",\"distinct_states\":" << shared->nstates << ",\"distinct_outcomes\":" << shared->noutcomes
           << ",\"known_finding_hits\":0,\"complete\":" << (full ? "true" : "false") << ",\"wall_s\":" << now() - ts << ",\"samples\":["
           << samples << "]}";
        first = false;
        printf("  %-34s schedules %8lu (+%lu cut off) points %9lu states %8lu outcomes %5lu bound %d %s %.1fs\n", reg[sc].name, ex, pruned, ops,
               (u64)shared->nstates, (u64)shared->noutcomes, bound, full ? "complete" : "INCOMPLETE", now() - ts);
        fflush(stdout);
    }
    stop();
    if (broken) return 5;
    js << "],\"executions\":" << T_ex << ",\"operations\":" << T_ops << ",\"states\":" << T_st << ",\"outcomes\":" << T_out
       << ",\"known_hits\":0,\"known_keys\":\"\",\"exhaustive\":" << (exhaustive ? "true" : "false")
       << ",\"violations\":" << (violated ? 1 : 0) << ",\"replay\":\"" << esc(rpath) << "\",\"message\":\"" << esc(vmsg)
       << "\",\"wall_s\":" << now() - t0 << "}\n";
    if (!out.empty()) {
        std::ofstream f(out);
        f << js.str();
    }
    return violated ? 1 : 0;
}
