// The deterministic runtime. NOT instrumented.
#include "rt.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <initializer_list>
#include <exception>
#include <new>

extern "C" char __data_start, _end;
extern "C" void* __cxa_get_globals() noexcept;
extern "C" char __libc_single_threaded;
extern __thread char dsim_td0, dsim_td1, dsim_tb0, dsim_tb1;

namespace rt {

Result* R = nullptr;
int g_sut = 0;
void (*on_free)(uintptr_t, size_t) = nullptr;

int sut_set(int v) { int o = g_sut; g_sut = v; return o; }

namespace {

constexpr uintptr_t ARENA = 0x200000000000;
constexpr size_t ARENA_SIZE = size_t(64) << 20;
constexpr uintptr_t AMASK = 0x210000000000;  // byte mask per 8 bytes: addressable
constexpr uintptr_t CELLS = 0x220000000000;  // race cells per 8 bytes
constexpr uintptr_t STACKS = 0x230000000000;
constexpr uintptr_t ICELLS = 0x240000000000; // race cells for the globals
constexpr size_t STACK_SIZE = size_t(1) << 20;

struct Cell {
    uint32_t w[MAXF], r[MAXF];
    uint8_t wm[MAXF], rm[MAXF];
    uint8_t flags; // 1: has atomic accesses
    uint8_t pad[5];
};

struct Header { // precedes every block, within the red zone
    uint32_t magic; // live or dead
    int32_t pool;
    uint64_t size;
    uint64_t align;
    uintptr_t prev; // previous block
    int32_t op, fiber;
    uint64_t serial; // of the allocation
    uint64_t cap;    // bytes which can be used again
};
static_assert(sizeof(Header) == 56);
constexpr uint32_t LIVE = 0x4c495645, DEAD = 0x44454144;

uintptr_t img_lo, img_hi;
uintptr_t bump, last_block;
int nout[64];
int g_fill = 0xcb;
bool g_reuse;            // sequential phases: freed memory is used again
uintptr_t freed_blocks[256]; // the last ones
int nfreed;
uint64_t nserial;

struct Fiber {
    int state; // 0 none, 1 runnable, 2 blocked, 3 done
    void* sp;
    int sut;
    void* eh[2];
    int op, stat;
    uint32_t ev;
    Fault fault;
    int nalloc, ncb;
    bool fired;
    void* wait_lock;
    int wait_mode; // 1 read 2 write
    int nsut; // depth check
    uint32_t vc[MAXF];
    int prio;
    struct { void (*fn)(void*); void* obj; } exits[16]; // destructors of thread-locals
    int nexits;
    uintptr_t spin_at; // consecutive accesses to one atomic
    int spin;
    bool signalled;
    int held;
} F[MAXF];
int ncur = 0;
int nf = 1;
bool conc = false;
bool race_off = false;
uint64_t gstamp = 0;
uint64_t th = 0x9e3779b97f4a7c15ull, sh = 1;
uint64_t steps = 0;
constexpr uint64_t MAX_STEPS = 12000000;
uint64_t more_steps;
constexpr int SPIN = 64;

Sched S;
uint64_t srng;
int acc_countdown = 0;
int next_point = 0;
int low_prio = 0;
bool resched = false;
Switch X[MAX_SWITCHES];
int nx = 0;
int xpos[MAXF]; // next entry for a fiber
int xnext(int f, int i) { while (i < nx && X[i].fiber != f) ++i; return i; }

uint64_t rnd() { // splitmix
    uint64_t z = (srng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

void (*worker_fn)(int);

struct Lock {
    uintptr_t addr;
    int writer;
    int depth; // of a recursive one
    int readers[MAXF];
    int nreaders;
    uint32_t relw[MAXF], relr[MAXF];
} L[128];
int nl = 0;

struct Sync { // atomic variables
    uintptr_t addr;
    uint32_t vc[MAXF];
    uint32_t aw[MAXF], ar[MAXF]; // clocks of the last atomic writes and reads
} Y[512];
int ny = 0;

extern "C" void rt_switch(void** from, void* to);
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size rt_switch, .-rt_switch
)");

inline void vjoin(uint32_t* a, const uint32_t* b) { for (int i = 0; i < MAXF; ++i) if (b[i] > a[i]) a[i] = b[i]; }

void hsh(uint64_t v) { th = (th ^ v) * 0xff51afd7ed558ccdull; th ^= th >> 32; }

// thread-locals of the code under test: those linked between the markers
constexpr size_t MAX_TLS = 1 << 16;
char tls_image[MAX_TLS], tls_store[MAXF][MAX_TLS];
size_t tls_len[2];
void tls_bounds(char** lo, size_t* len) {
    lo[0] = &dsim_td0; len[0] = size_t(&dsim_td1 - &dsim_td0);
    lo[1] = &dsim_tb0; len[1] = size_t(&dsim_tb1 - &dsim_tb0);
}
void tls_copy(char* to, const char* from) { // to or from memory of the running thread
    char* lo[2]; size_t len[2];
    tls_bounds(lo, len);
    for (int i = 0; i < 2; ++i) {
        if (to) memcpy(to, lo[i], len[i]), to += len[i];
        else memcpy(lo[i], from, len[i]), from += len[i];
    }
}
void tls_init() {
    char* lo[2];
    tls_bounds(lo, tls_len);
    // the markers alone are no reason to do anything
    if (tls_len[0] + tls_len[1] > MAX_TLS || tls_len[0] + tls_len[1] <= 2 * sizeof(void*)) { tls_len[0] = tls_len[1] = 0; return; }
    tls_copy(tls_image, nullptr);
}
void tls_exit() {
    auto& f = F[ncur];
    g_sut = 1;
    while (f.nexits) { auto e = f.exits[--f.nexits]; e.fn(e.obj); }
    g_sut = 0;
}

void switch_to(int t) {
    if (t == ncur) return;
    if (tls_len[0] + tls_len[1]) {
        tls_copy(tls_store[ncur], nullptr);
        tls_copy(nullptr, tls_store[t]);
    }
    auto& a = F[ncur];
    auto& b = F[t];
    a.sut = g_sut;
    void** g = reinterpret_cast<void**>(__cxa_get_globals());
    a.eh[0] = g[0]; a.eh[1] = g[1];
    g[0] = b.eh[0]; g[1] = b.eh[1];
    sh = mix(sh, uint64_t(ncur) << 56 | uint64_t(a.op) << 40 | uint64_t(t) << 32 | a.ev);
    ncur = t;
    g_sut = b.sut;
    rt_switch(&a.sp, b.sp);
}

void record(int t) {
    if (R->nswitch < MAX_SWITCHES) {
        R->rec[R->nswitch++] = {ncur, F[ncur].op, F[ncur].ev, t};
    }
    // more switches than can be recorded: the run goes on without further voluntary ones
}

bool runnable(int f) { return f < nf && f > 0 && F[f].state == 1; }

int explicit_target() {
    auto& f = F[ncur];
    int& p = xpos[ncur];
    while (p < nx && (X[p].op < f.op || (X[p].op == f.op && X[p].ev < f.ev))) p = xnext(ncur, p + 1);
    if (p < nx && X[p].op == f.op && X[p].ev == f.ev) {
        int t = X[p].target;
        p = xnext(ncur, p + 1);
        return t;
    }
    return -1;
}

int best_prio() {
    int b = -1;
    for (int i = 1; i < nf; ++i) if (runnable(i) && (b < 0 || F[i].prio > F[b].prio)) b = i;
    return b;
}

void next_acc() {
    // geometric-like countdown
    if (S.acc_period <= 0) { acc_countdown = 0x7fffffff; return; }
    acc_countdown = 1 + int(rnd() % (2 * S.acc_period));
}

// choose who continues after an event of the current (runnable) fiber
int decide(bool sync) {
    switch (S.mode) {
    case Sched::explicit_list: {
        int t = explicit_target();
        return t > 0 && runnable(t) ? t : ncur;
    }
    case Sched::random: {
        if (R->nswitch >= MAX_SWITCHES - 64) return ncur;
        bool sw = false;
        if (sync) sw = int(rnd() % 100) < S.sync_percent;
        else if (--acc_countdown <= 0) { sw = true; next_acc(); }
        if (!sw) return ncur;
        int c[MAXF], n = 0;
        for (int i = 1; i < nf; ++i) if (runnable(i)) c[n++] = i;
        return c[rnd() % n];
    }
    default: {
        if (R->nswitch >= MAX_SWITCHES - 64) return ncur;
        bool re = resched;
        resched = false;
        while (next_point < S.npoints && R->conc_events >= S.points[next_point]) {
            F[ncur].prio = --low_prio;
            ++next_point;
            re = true;
        }
        return re ? best_prio() : ncur;
    }
    }
}

int decide_forced() {
    int c[MAXF], n = 0;
    for (int i = 1; i < nf; ++i) if (runnable(i)) c[n++] = i;
    if (!n) return -1;
    switch (S.mode) {
    case Sched::explicit_list: {
        int t = explicit_target();
        return t > 0 && runnable(t) ? t : c[0];
    }
    case Sched::random: return c[rnd() % n];
    default: return best_prio();
    }
}

void event(bool sync) { // of the current fiber, in the concurrent phase
    auto& f = F[ncur];
    ++f.ev;
    ++R->conc_events;
    int t = decide(sync);
    if (t != ncur) {
        record(t);
        ++R->switches;
        switch_to(t);
    }
}

void deadlock() {
    char b[600]; int n = 0;
    for (int i = 1; i < nf; ++i) {
        if (F[i].state != 2) continue;
        n += snprintf(b + n, sizeof b - n, " fiber %d (op %d) waits to %s", i, F[i].op, F[i].wait_mode == 1 ? "read-lock" : "write-lock");
        for (int k = 0; k < nl; ++k) if ((void*)L[k].addr == F[i].wait_lock) {
            n += snprintf(b + n, sizeof b - n, " lock %d held by", k);
            if (L[k].writer >= 0) n += snprintf(b + n, sizeof b - n, " writer %d", L[k].writer);
            for (int j = 0; j < MAXF; ++j) if (L[k].readers[j]) n += snprintf(b + n, sizeof b - n, " reader %d", j);
        }
        n += snprintf(b + n, sizeof b - n, ";");
    }
    fail("deadlock", "no fiber can continue:%s", b);
}

void block_current() {
    auto& f = F[ncur];
    f.state = 2;
    ++R->lock_blocks;
    ++f.ev; ++R->conc_events;
    if (S.mode == Sched::pct) {
        while (next_point < S.npoints && R->conc_events >= S.points[next_point]) { F[ncur].prio = --low_prio; ++next_point; }
    }
    int t = decide_forced();
    if (t < 0) deadlock();
    record(t);
    ++R->forced_switches;
    switch_to(t);
}

// a thread which waits by turning around lets others run
void yield_current() {
    if (!conc || !ncur) return;
    auto& f = F[ncur];
    ++f.ev; ++R->conc_events;
    f.spin = 0;
    int t = S.mode == Sched::explicit_list ? explicit_target() : -1;
    if (t <= 0 || !runnable(t)) {
        int c[MAXF], n = 0;
        for (int k = 1; k < nf; ++k) { int i = (ncur + k - 1) % (nf - 1) + 1; if (i != ncur && runnable(i)) c[n++] = i; }
        if (!n) return;
        if (S.mode == Sched::pct) { f.prio = --low_prio; t = best_prio(); }
        else t = S.mode == Sched::random ? c[rnd() % n] : c[0];
    }
    if (t == ncur) return;
    if (R->nswitch < MAX_SWITCHES - 64) record(t);
    ++R->forced_switches;
    switch_to(t);
}

void fiber_entry() {
    int me = ncur;
    try {
        worker_fn(me);
    }
    catch (...) {
        fail("harness", "exception escaped from the operations of a fiber");
    }
    tls_exit();
    auto& f = F[me];
    f.state = 3;
    f.op = 1 << 20; f.ev = 0;
    g_sut = 0;
    int t = decide_forced();
    if (t < 0) {
        for (int i = 1; i < nf; ++i) if (F[i].state == 2) deadlock();
        switch_to(0);
    }
    else {
        record(t);
        switch_to(t);
    }
    abort();
}

Lock& lock_at(void* p) {
    for (int i = 0; i < nl; ++i) if (L[i].addr == (uintptr_t)p) return L[i];
    if (nl == 128) fail("harness", "too many locks");
    auto& l = L[nl++];
    memset(&l, 0, sizeof l);
    l.addr = (uintptr_t)p;
    l.writer = -1;
    return l;
}

Sync& sync_at(uintptr_t a) {
    for (int i = 0; i < ny; ++i) if (Y[i].addr == a) return Y[i];
    if (ny == 512) { race_off = true; return Y[0]; }
    auto& y = Y[ny++];
    memset(&y, 0, sizeof y);
    y.addr = a;
    return y;
}

void describe(uintptr_t a, char* b, size_t n) {
    if (a >= ARENA && a < ARENA + ARENA_SIZE) {
        for (uintptr_t h = last_block; h; h = ((Header*)h)->prev) {
            auto& hd = *(Header*)h;
            uintptr_t beg = h + sizeof(Header);
            if (a + 16 >= beg && a < beg + hd.size + 48) {
                snprintf(b, n, "%ld bytes into a %lu byte %s block of pool %d (allocated by fiber %d op %d)",
                    long(a - beg), (unsigned long)hd.size, hd.magic == LIVE ? "live" : "freed", hd.pool, hd.fiber, hd.op);
                return;
            }
        }
        snprintf(b, n, "arena address outside of blocks");
    }
    else snprintf(b, n, "a global variable");
}

void race(uintptr_t a, size_t n, bool w, int g, bool gw) {
    char b[300];
    describe(a, b, sizeof b);
    fail("race", "data race: fiber %d (op %d) %s %lu bytes which fiber %d (op %d) %s, unordered: %s", ncur, F[ncur].op,
        w ? "writes" : "reads", (unsigned long)n, g, F[g].op, gw ? "wrote" : "read", b);
}

void check_addr(uintptr_t a, size_t n, bool w) {
    uintptr_t e = a + n;
    if (e > ARENA + ARENA_SIZE) e = ARENA + ARENA_SIZE;
    for (uintptr_t g = a & ~uintptr_t(7); g < e; g += 8) {
        uint8_t m = 0xff;
        if (g < a) m &= uint8_t(0xff << (a - g));
        if (g + 8 > e) m &= uint8_t(0xff >> (g + 8 - e));
        uint8_t am = *(uint8_t*)(AMASK + (g - ARENA) / 8);
        if ((am & m) != m) {
            char b[300];
            describe(a, b, sizeof b);
            fail("bad-access", "invalid %s of %lu bytes by fiber %d: %s", w ? "write" : "read", (unsigned long)n, ncur, b);
        }
    }
}

struct { uintptr_t lo, hi; } gone[32];
int ngone;

inline Cell* cell_of(uintptr_t g) {
    if (g >= ARENA && g < ARENA + ARENA_SIZE) return (Cell*)(CELLS + (g - ARENA) / 8 * sizeof(Cell));
    if (g >= img_lo && g < img_hi) return (Cell*)(ICELLS + (g - img_lo) / 8 * sizeof(Cell));
    return nullptr;
}

void race_check(uintptr_t a, size_t n, bool w) {
    if (race_off) return;
    auto& f = F[ncur];
    uint32_t clk = f.vc[ncur];
    for (uintptr_t g = a & ~uintptr_t(7); g < a + n; g += 8) {
        uint8_t m = 0xff;
        if (g < a) m &= uint8_t(0xff << (a - g));
        if (g + 8 > a + n) m &= uint8_t(0xff >> (g + 8 - a - n));
        Cell* c = cell_of(g);
        if (!c) return;
        for (int k = 0; k < MAXF; ++k) {
            if (k == ncur) continue;
            if ((c->wm[k] & m) && c->w[k] > f.vc[k]) race(a, n, w, k, true);
            if (w && (c->rm[k] & m) && c->r[k] > f.vc[k]) race(a, n, w, k, false);
        }
        if (c->flags & 1) {
            for (int i = 0; i < ny; ++i) {
                if ((Y[i].addr & ~uintptr_t(7)) != g) continue;
                for (int k = 0; k < MAXF; ++k) {
                    if (k == ncur) continue;
                    if (Y[i].aw[k] > f.vc[k]) race(a, n, w, k, true);
                    if (w && Y[i].ar[k] > f.vc[k]) race(a, n, w, k, false);
                }
            }
        }
        uint32_t* x = w ? c->w : c->r;
        uint8_t* xm = w ? c->wm : c->rm;
        if (x[ncur] == clk) xm[ncur] |= m;
        else { x[ncur] = clk; xm[ncur] = m; }
    }
}

inline bool tracked(uintptr_t a) {
    return (a >= ARENA && a < ARENA + ARENA_SIZE) || (a >= img_lo && a < img_hi);
}

inline void step() {
    if (++steps > MAX_STEPS + more_steps) fail("no-progress", "the run did not finish within %lu steps: fiber %d op %d", (unsigned long)(MAX_STEPS + more_steps), ncur, F[ncur].op);
}

void do_access(uintptr_t a, size_t n, bool w) {
    if (!n) return;
    step();
    if (!tracked(a)) return;
    ++R->accesses;
    bool ar = a >= ARENA && a < ARENA + ARENA_SIZE;
    if (ar) hsh((a - ARENA) ^ (uint64_t(n) << 40) ^ (uint64_t(w) << 63));
    if (conc && ncur) event(false);
    if (ar) check_addr(a, n, w);
    else for (int i = 0; i < ngone; ++i) if (a < gone[i].hi && a + n > gone[i].lo)
        fail("bad-access", "invalid %s of %lu bytes by fiber %d: %ld bytes into a global of a module which was unloaded", w ? "write" : "read", (unsigned long)n, ncur, long(a - gone[i].lo));
    if (conc) race_check(a, n, w);
}

inline void acc(const void* p, size_t n, bool w) {
    if (!g_sut) return;
    do_access((uintptr_t)p, n, w);
}

// locks

void lock_acquire(void* p, int mode) { // 1 shared, 2 exclusive
    step();
    uintptr_t a = (uintptr_t)p;
    if (a >= ARENA && a < ARENA + ARENA_SIZE) check_addr(a, 8, true);
    hsh(0x1000 + mode);
    if (conc && ncur) event(true);
    Lock& l = lock_at(p);
    if (mode == 3) { // recursive
        mode = 2;
        if (l.writer == ncur) { ++l.depth; return; }
    }
    if (l.writer == ncur || l.readers[ncur]) {
        fail("recursive-lock", "fiber %d (op %d) takes a lock which it already holds (%s, wants %s)", ncur, F[ncur].op,
            l.writer == ncur ? "exclusively" : "shared", mode == 1 ? "shared" : "exclusive");
    }
    auto& f = F[ncur];
    while (true) {
        bool ok;
        if (mode == 2) ok = l.writer < 0 && !l.nreaders;
        else {
            ok = l.writer < 0;
            if (ok && S.writer_pref) {
                for (int i = 1; i < nf; ++i) if (i != ncur && F[i].wait_lock == p && F[i].wait_mode == 2) ok = false;
            }
        }
        if (ok) break;
        if (!conc || !ncur) fail("deadlock", "the only thread waits for a lock");
        f.wait_lock = p; f.wait_mode = mode;
        block_current();
    }
    f.wait_lock = nullptr;
    if (mode == 2) {
        l.writer = ncur;
        vjoin(f.vc, l.relw); vjoin(f.vc, l.relr);
    }
    else {
        ++l.readers[ncur]; ++l.nreaders;
        vjoin(f.vc, l.relw);
    }
}

bool lock_try(void* p, int mode) {
    step();
    if (conc && ncur) event(true);
    Lock& l = lock_at(p);
    auto& f = F[ncur];
    if (mode == 3) {
        mode = 2;
        if (l.writer == ncur) { ++l.depth; return true; }
    }
    if (++f.spin > SPIN && (l.writer >= 0 || (mode == 2 && l.nreaders))) yield_current();
    if (mode == 2) {
        if (l.writer >= 0 || l.nreaders) return false;
        l.writer = ncur;
        vjoin(f.vc, l.relw); vjoin(f.vc, l.relr);
    }
    else {
        if (l.writer >= 0) return false;
        ++l.readers[ncur]; ++l.nreaders;
        vjoin(f.vc, l.relw);
    }
    return true;
}

void lock_release(void* p) {
    step();
    hsh(0x1003);
    Lock& l = lock_at(p);
    auto& f = F[ncur];
    if (l.writer == ncur) {
        if (l.depth) { --l.depth; return; }
        l.writer = -1;
        memcpy(l.relw, f.vc, sizeof f.vc);
    }
    else if (l.readers[ncur]) {
        --l.readers[ncur]; --l.nreaders;
        vjoin(l.relr, f.vc);
    }
    else fail("bad-unlock", "fiber %d (op %d) releases a lock which it does not hold", ncur, f.op);
    ++f.vc[ncur];
    for (int i = 1; i < nf; ++i) {
        if (F[i].state == 2 && F[i].wait_lock == p) { F[i].state = 1; resched = true; }
    }
    if (conc && ncur) event(true);
}

// atomics

enum { a_load, a_store, a_rmw };
bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

void atomic_sync(const volatile void* p, size_t n, int kind, int mo);
void atomic_begin(const volatile void* p, size_t n, int kind) {
    if (!g_sut) return;
    step();
    uintptr_t a = (uintptr_t)p;
    bool ar = a >= ARENA && a < ARENA + ARENA_SIZE;
    if (ar) hsh((a - ARENA) ^ 0x77);
    if (conc && ncur) {
        event(true);
        auto& f = F[ncur];
        if (f.spin_at != a) { f.spin_at = a; f.spin = 0; }
        else if (++f.spin > SPIN) yield_current();
    }
    if (ar) check_addr(a, n, kind != a_load);
}
void atomic_event(const volatile void* p, size_t n, int kind, int mo) {
    atomic_begin(p, n, kind);
    atomic_sync(p, n, kind, mo);
}
void atomic_sync(const volatile void* p, size_t n, int kind, int mo) {
    uintptr_t a = (uintptr_t)p;
    if (!g_sut || !conc || race_off || !tracked(a)) return;
    auto& f = F[ncur];
    Sync& y = sync_at(a);
    // against plain accesses
    for (uintptr_t g = a & ~uintptr_t(7); g < a + n; g += 8) {
        Cell* c = cell_of(g);
        uint8_t m = 0xff;
        if (g < a) m &= uint8_t(0xff << (a - g));
        if (g + 8 > a + n) m &= uint8_t(0xff >> (g + 8 - a - n));
        for (int k = 0; k < MAXF; ++k) {
            if (k == ncur) continue;
            if ((c->wm[k] & m) && c->w[k] > f.vc[k]) race(a, n, kind != a_load, k, true);
            if (kind != a_load && (c->rm[k] & m) && c->r[k] > f.vc[k]) race(a, n, true, k, false);
        }
        c->flags |= 1;
    }
    if (kind != a_store && is_acq(mo)) vjoin(f.vc, y.vc);
    if (kind != a_load) {
        if (is_rel(mo)) {
            if (kind == a_store) memcpy(y.vc, f.vc, sizeof f.vc);
            else vjoin(y.vc, f.vc);
        }
        else if (kind == a_store) memset(y.vc, 0, sizeof y.vc);
        y.aw[ncur] = f.vc[ncur];
        if (is_rel(mo)) ++f.vc[ncur];
    }
    else y.ar[ncur] = f.vc[ncur];
}

void on_signal(int s) {
    g_sut = 0;
    char c[32];
    snprintf(c, sizeof c, s == SIGXCPU ? "no-progress" : "crash:%d", s);
    fail(c, "signal %d in fiber %d op %d", s, ncur, F[ncur].op);
}

void on_terminate() {
    g_sut = 0;
    fail("terminate", "std::terminate was called in fiber %d op %d (an exception escaped from a function which must not throw)", ncur, F[ncur].op);
}

} // namespace

uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}
void trace(uint64_t v) { hsh(v); }

void fail(const char* cls, const char* fmt, ...) {
    g_sut = 0;
    if (R->done != 2) {
        snprintf(R->cls, sizeof R->cls, "%s", cls);
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(R->msg, sizeof R->msg, fmt, ap);
        va_end(ap);
        R->trace_hash = th;
        R->sched_hash = sh;
        R->events = steps;
        R->done = 2;
    }
    DSIM_EXIT(3);
}

void init_process() {
    auto m = [](uintptr_t a, size_t n) {
        void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)a) { perror("mmap"); exit(2); }
    };
    img_lo = (uintptr_t)&__data_start & ~uintptr_t(7);
    img_hi = ((uintptr_t)&_end + 7) & ~uintptr_t(7);
    m(ARENA, ARENA_SIZE);
    m(AMASK, ARENA_SIZE / 8);
    m(CELLS, ARENA_SIZE / 8 * sizeof(Cell));
    m(STACKS, STACK_SIZE * MAXF);
    m(ICELLS, (img_hi - img_lo) / 8 * sizeof(Cell));
}

void begin_run(const Sched& s, const Switch* sw, int nsw) {
    S = s;
    srng = s.seed;
    nx = 0;
    for (int i = 0; i < nsw && i < MAX_SWITCHES; ++i) X[nx++] = sw[i];
    for (int i = 0; i < MAXF; ++i) xpos[i] = xnext(i, 0);
    bump = ARENA + 4096;
    last_block = 0;
    F[0].state = 1;
    F[0].vc[0] = 1;
    F[0].stat = -1;
    tls_init();
    __libc_single_threaded = 0; // shared_ptr with atomic operations
    std::set_terminate(on_terminate);
    static char sigstack[65536];
    stack_t ss{};
    ss.ss_sp = sigstack; ss.ss_size = sizeof sigstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU, SIGTRAP}) sigaction(sg, &sa, nullptr);
    rlimit rl{20, 25};
    setrlimit(RLIMIT_CPU, &rl);
    rlimit rc{0, 0};
    setrlimit(RLIMIT_CORE, &rc);
}

void poison(const void* p, size_t n) {
    if (ngone < 32) { gone[ngone].lo = (uintptr_t)p; gone[ngone++].hi = (uintptr_t)p + n; }
}
void renew(const void* p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    for (int i = 0; i < ngone; ++i) if (gone[i].lo == a) gone[i--] = gone[--ngone];
    for (uintptr_t g = a & ~uintptr_t(7); g < a + n; g += 8) if (Cell* c = cell_of(g)) memset(c, 0, sizeof *c);
}
void note_fill(int v, bool reuse) { g_fill = v; g_reuse = reuse; }

int cur() { return ncur; }
int cur_op() { return F[ncur].op; }
bool concurrent() { return conc; }
void allow_steps(uint64_t n) { more_steps += n; }
uint64_t stamp() { return ++gstamp; }

void op_begin(int opidx, int statidx, Fault fl) {
    auto& f = F[ncur];
    f.op = opidx;
    f.stat = statidx;
    f.ev = 0;
    f.fault = fl;
    f.nalloc = f.ncb = 0;
    f.fired = false;
    hsh(0x2000 + opidx);
}
void op_end() {
    auto& f = F[ncur];
    if (f.stat >= 0 && f.stat < 512) {
        auto& o = R->ops[f.stat];
        o.allocs = uint16_t(f.nalloc);
        o.cbs = uint16_t(f.ncb);
        o.evs = f.ev;
    }
    f.fault = {};
}
bool fault_fired() { return F[ncur].fired; }

int callback_event() {
    if (conc && ncur) event(true);
    auto& f = F[ncur];
    if (f.held) return 0;
    ++f.ncb;
    if (f.fault.kind >= Fault::cb_error && f.ncb == f.fault.n) {
        f.fired = true;
        ++R->faults_fired[f.fault.kind];
        return f.fault.kind;
    }
    return 0;
}
void hold_faults(bool on) { F[ncur].held += on ? 1 : -1; }
void sync_event() { if (conc && ncur) event(true); }

// memory

bool in_arena(const void* p) { uintptr_t a = (uintptr_t)p; return a >= ARENA && a < ARENA + ARENA_SIZE; }

static void set_mask(uintptr_t a, size_t n, bool v) {
    uintptr_t e = a + n;
    for (uintptr_t g = a & ~uintptr_t(7); g < e; g += 8) {
        uint8_t m = 0xff;
        if (g < a) m &= uint8_t(0xff << (a - g));
        if (g + 8 > e) m &= uint8_t(0xff >> (g + 8 - e));
        uint8_t& am = *(uint8_t*)(AMASK + (g - ARENA) / 8);
        if (v) am |= m; else am &= uint8_t(~m);
    }
}

// the block which was freed last, as most allocators do
static void* reused(size_t n, size_t a, int pool) {
    for (int i = nfreed, exact = 1; ; ) {
        if (i-- == 0) {
            if (!exact) break;
            exact = 0;
            i = nfreed;
            continue;
        }
        uintptr_t p = freed_blocks[i];
        auto* h = (Header*)(p - sizeof(Header));
        if (h->align != a || h->pool != pool) continue;
        if (exact ? h->size != n : h->cap < n || h->cap > 2 * n + 64) continue;
        memmove(freed_blocks + i, freed_blocks + i + 1, size_t(--nfreed - i) * sizeof freed_blocks[0]);
        // nothing which was there is there any more
        for (uintptr_t g = p & ~uintptr_t(7); g < p + n; g += 8) memset(cell_of(g), 0, sizeof(Cell));
        for (int k = 0; k < ny; ++k) if (Y[k].addr >= p && Y[k].addr < p + n) Y[k--] = Y[--ny];
        for (int k = 0; k < nl; ++k) if (L[k].addr >= p && L[k].addr < p + n && L[k].writer < 0 && !L[k].nreaders) L[k--] = L[--nl];
        h->magic = LIVE;
        h->size = n;
        h->op = F[ncur].op; h->fiber = ncur; h->serial = ++nserial;
        memset((void*)p, g_fill, n);
        set_mask(p, n, true);
        ++nout[pool];
        PROBE("freed memory used again");
        return (void*)p;
    }
    return nullptr;
}

void* alloc(size_t n, size_t a, int pool) {
    if (a == 0 || (a & (a - 1))) { fail("bad-alloc-args", "allocation of %lu bytes with alignment %lu", (unsigned long)n, (unsigned long)a); }
    if (g_reuse && !conc && n) if (void* p = reused(n, a, pool)) return p;
    size_t ra = a < 8 ? 8 : a;
    // aligned to a, but to nothing more
    uintptr_t p = bump + sizeof(Header) + 16;
    p = (p + ra - 1) & ~(uintptr_t(ra) - 1);
    if (ra >= 16 && p % (2 * ra) == 0) p += ra;
    if (n > ARENA_SIZE || p + n + 64 > ARENA + ARENA_SIZE) fail("arena", "out of arena memory: %lu bytes requested", (unsigned long)n);
    auto* h = (Header*)(p - sizeof(Header));
    h->magic = LIVE; h->pool = pool; h->size = n; h->align = a; h->prev = last_block;
    h->op = F[ncur].op; h->fiber = ncur; h->serial = ++nserial; h->cap = n;
    last_block = (uintptr_t)h;
    bump = (p + n + 16 + 7) & ~uintptr_t(7);
    memset((void*)p, g_fill, n);
    set_mask(p, n, true);
    ++nout[pool];
    return (void*)p;
}

bool sut_alloc_fails() {
    step();
    ++R->allocs;
    if (conc && ncur) event(true);
    auto& f = F[ncur];
    if (f.held) return false;
    ++f.nalloc;
    hsh(0x3000 + f.nalloc);
    if ((f.fault.kind == Fault::alloc_nth && f.nalloc == f.fault.n) || (f.fault.kind == Fault::alloc_from && f.nalloc >= f.fault.n)) {
        f.fired = true;
        ++R->faults_fired[f.fault.kind];
        return true;
    }
    return false;
}

void* sut_alloc(size_t n, size_t a, int pool) {
    if (sut_alloc_fails()) {
        int o = sut_set(0);
        try { throw std::bad_alloc(); }
        catch (...) { g_sut = o; throw; }
    }
    return alloc(n, a, pool);
}

void dealloc(void* p, size_t n, size_t a, int pool) {
    if (!p) return;
    if (!in_arena(p)) fail("bad-free", "free of a pointer which was not allocated (pool %d, %lu bytes)", pool, (unsigned long)n);
    auto* h = (Header*)((uintptr_t)p - sizeof(Header));
    if (h->magic == DEAD) fail("double-free", "second free of a %lu byte block of pool %d", (unsigned long)h->size, h->pool);
    if (h->magic != LIVE) fail("bad-free", "free of a pointer which is not the start of a block (pool %d, %lu bytes)", pool, (unsigned long)n);
    if (h->pool != pool) fail("wrong-allocator", "%lu byte block of pool %d was freed to pool %d", (unsigned long)h->size, h->pool, pool);
    if (n != unknown && n != h->size) fail("free-size", "block of %lu bytes (pool %d) was freed as %lu bytes", (unsigned long)h->size, pool, (unsigned long)n);
    if (a != unknown && a != h->align) fail("free-align", "block with alignment %lu (pool %d, %lu bytes) was freed with alignment %lu", (unsigned long)h->align, pool, (unsigned long)h->size, (unsigned long)a);
    if (conc) {
        int o = g_sut;
        race_check((uintptr_t)p, h->size, true);
        g_sut = o;
    }
    if (on_free) {
        int o = sut_set(0);
        on_free((uintptr_t)p, h->size);
        g_sut = o;
    }
    h->magic = DEAD;
    set_mask((uintptr_t)p, h->size, false);
    memset(p, 0xdd, h->size);
    --nout[pool];
    if (g_reuse) {
        if (nfreed == 256) memmove(freed_blocks, freed_blocks + 1, size_t(--nfreed) * sizeof freed_blocks[0]);
        freed_blocks[nfreed++] = (uintptr_t)p;
    }
}

bool addressable(const void* p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if (!in_arena(p) || (n && !in_arena((const char*)p + n - 1))) return false;
    for (size_t i = 0; i < n; ++i) {
        uintptr_t b = a + i;
        if (!(*(uint8_t*)(AMASK + (b - ARENA) / 8) & (1 << (b & 7)))) return false;
    }
    return true;
}

bool block_of(const void* p, uintptr_t& begin, size_t& size, int& pool) {
    uintptr_t a = (uintptr_t)p;
    for (uintptr_t h = last_block; h; h = ((Header*)h)->prev) {
        auto& hd = *(Header*)h;
        uintptr_t b = h + sizeof(Header);
        if (a >= b && a <= b + hd.size) {
            if (hd.magic != LIVE) return false;
            begin = b; size = hd.size; pool = hd.pool;
            return true;
        }
        if (b + hd.size < a) return false; // blocks are in descending order
    }
    return false;
}

uint64_t serial_of(const void* p) {
    uintptr_t h = (uintptr_t)p - sizeof(Header);
    if (!in_arena(p) || !in_arena((void*)h)) return 0;
    auto& hd = *(Header*)h;
    return hd.magic == LIVE || hd.magic == DEAD ? hd.serial : 0;
}

void access(const void* p, size_t n, bool w) {
    int o = sut_set(1);
    do_access((uintptr_t)p, n, w);
    g_sut = o;
}

int outstanding(int pool) { return nout[pool]; }

void check_leaks(unsigned mask) {
    tls_exit();
    for (uintptr_t h = last_block; h; h = ((Header*)h)->prev) {
        auto& hd = *(Header*)h;
        if (hd.magic == LIVE && (mask >> hd.pool & 1)) {
            fail("leak", "a %lu byte block of pool %d allocated by fiber %d op %d was never freed", (unsigned long)hd.size, hd.pool, hd.fiber, hd.op);
        }
    }
}

void run_workers(int n, void (*fn)(int)) {
    worker_fn = fn;
    nf = n + 1;
    for (int i = 1; i <= n; ++i) {
        auto& f = F[i];
        f.state = 1;
        f.sut = 0;
        f.eh[0] = f.eh[1] = nullptr;
        memcpy(tls_store[i], tls_image, tls_len[0] + tls_len[1]);
        f.stat = -1;
        memcpy(f.vc, F[0].vc, sizeof f.vc);
        f.vc[i] = 1;
        uintptr_t top = STACKS + STACK_SIZE * (i + 1) - 64;
        void** sp = (void**)top;
        *--sp = nullptr;               // fake return address of the entry
        *--sp = (void*)&fiber_entry;   // rt_switch returns here
        for (int k = 0; k < 6; ++k) *--sp = nullptr;
        f.sp = sp;
    }
    ++F[0].vc[0];
    if (S.mode == Sched::pct) {
        // random order of priorities
        int perm[MAXF];
        for (int i = 1; i <= n; ++i) perm[i] = i;
        for (int i = n; i > 1; --i) { int j = 1 + int(rnd() % i); int t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
        for (int i = 1; i <= n; ++i) F[i].prio = perm[i];
    }
    next_acc();
    conc = true;
    F[0].op = 1 << 20; F[0].ev = 0;
    int t = decide_forced();
    record(t);
    switch_to(t);
    conc = false;
    for (int i = 1; i <= n; ++i) { vjoin(F[0].vc, F[i].vc); F[i].state = 0; }
    nf = 1;
}

// called at the end of a run
void end_run();
void end_run() {
    R->trace_hash = th;
    R->sched_hash = sh;
    R->events = steps;
}

} // namespace rt

using namespace rt;

extern "C" {

// --- compiler instrumentation ---
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#if defined(DSIM_COVERAGE) // not the counters
extern char __start___llvm_prf_cnts[], __stop___llvm_prf_cnts[];
#define acc(p, n, w) ((const char*)(p) >= __start___llvm_prf_cnts && (const char*)(p) < __stop___llvm_prf_cnts ? void() : acc(p, n, w))
#endif
#define RW(n) \
    void __tsan_read##n(void* p) { if (g_sut) acc(p, n, false); } \
    void __tsan_write##n(void* p) { if (g_sut) acc(p, n, true); } \
    void __tsan_read_write##n(void* p) { if (g_sut) acc(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { if (g_sut) acc(p, n, false); } \
    void __tsan_unaligned_write##n(void* p) { if (g_sut) acc(p, n, true); } \
    void __tsan_unaligned_read_write##n(void* p) { if (g_sut) acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** p) { if (g_sut) acc(p, 8, false); }
void __tsan_vptr_update(void** p, void* v) { if (g_sut && *p != v) acc(p, 8, true); }
void __tsan_read_range(void* p, size_t n) { if (g_sut) acc(p, n, false); }
void __tsan_write_range(void* p, size_t n) { if (g_sut) acc(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (g_sut) { acc(s, n, false); acc(d, n, true); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (g_sut) { acc(s, n, false); acc(d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (g_sut) acc(d, n, true); return memset(d, c, n); }

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { atomic_event(p, sizeof(T), a_load, mo); return *p; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { atomic_event(p, sizeof(T), a_store, mo); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { atomic_event(p, sizeof(T), a_rmw, mo); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { atomic_event(p, sizeof(T), a_rmw, mo); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { atomic_event(p, sizeof(T), a_rmw, mo); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { atomic_event(p, sizeof(T), a_rmw, mo); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { atomic_event(p, sizeof(T), a_rmw, mo); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { atomic_event(p, sizeof(T), a_rmw, mo); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { atomic_event(p, sizeof(T), a_rmw, mo); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) { atomic_begin(p, sizeof(T), a_rmw); T o = *p; bool ok = o == *c; atomic_sync(p, sizeof(T), ok ? a_rmw : a_load, ok ? mo : fmo); if (ok) { *p = v; return 1; } *c = o; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { atomic_begin(p, sizeof(T), a_rmw); T o = *p; bool ok = o == *c; atomic_sync(p, sizeof(T), ok ? a_rmw : a_load, ok ? mo : fmo); if (ok) { *p = v; return 1; } *c = o; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { atomic_begin(p, sizeof(T), a_rmw); T o = *p; bool ok = o == c; atomic_sync(p, sizeof(T), ok ? a_rmw : a_load, ok ? mo : fmo); if (ok) *p = v; return o; }
typedef unsigned char u8t; typedef unsigned short u16t; typedef unsigned u32t; typedef unsigned long u64t;
AT(8, u8t) AT(16, u16t) AT(32, u32t) AT(64, u64t)
void __tsan_atomic_thread_fence(int) { if (g_sut) race_off = true; }
void __tsan_atomic_signal_fence(int) {}

// --- locks (linked with --wrap) ---
#define WRAPLOCK(fn, T, body) int __real_##fn(T*); int __wrap_##fn(T* p); int __wrap_##fn(T* p) { if (!g_sut) return __real_##fn(p); body }
WRAPLOCK(pthread_rwlock_rdlock, pthread_rwlock_t, lock_acquire(p, 1); return 0;)
WRAPLOCK(pthread_rwlock_wrlock, pthread_rwlock_t, lock_acquire(p, 2); return 0;)
WRAPLOCK(pthread_rwlock_tryrdlock, pthread_rwlock_t, return lock_try(p, 1) ? 0 : EBUSY;)
WRAPLOCK(pthread_rwlock_trywrlock, pthread_rwlock_t, return lock_try(p, 2) ? 0 : EBUSY;)
WRAPLOCK(pthread_rwlock_unlock, pthread_rwlock_t, lock_release(p); return 0;)
static int mutex_mode(pthread_mutex_t* p) { return (p->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE ? 3 : 2; }
WRAPLOCK(pthread_mutex_lock, pthread_mutex_t, lock_acquire(p, mutex_mode(p)); return 0;)
WRAPLOCK(pthread_mutex_trylock, pthread_mutex_t, return lock_try(p, mutex_mode(p)) ? 0 : EBUSY;)
WRAPLOCK(pthread_mutex_unlock, pthread_mutex_t, lock_release(p); return 0;)

// the library has no use for these, but a change may have: the timeout of a timed call does not come, or at once
#define WRAPTIMED(fn, T, body) \
    int __real_##fn(T*, const timespec*); int __wrap_##fn(T* p, const timespec* t); int __wrap_##fn(T* p, const timespec* t) { if (!g_sut) return __real_##fn(p, t); body } 
#define WRAPCLOCK(fn, T, body) \
    int __real_##fn(T*, clockid_t, const timespec*); int __wrap_##fn(T* p, clockid_t c, const timespec* t); int __wrap_##fn(T* p, clockid_t c, const timespec* t) { if (!g_sut) return __real_##fn(p, c, t); body }
WRAPTIMED(pthread_mutex_timedlock, pthread_mutex_t, lock_acquire(p, mutex_mode(p)); return 0;)
WRAPCLOCK(pthread_mutex_clocklock, pthread_mutex_t, lock_acquire(p, mutex_mode(p)); return 0;)
WRAPTIMED(pthread_rwlock_timedrdlock, pthread_rwlock_t, lock_acquire(p, 1); return 0;)
WRAPCLOCK(pthread_rwlock_clockrdlock, pthread_rwlock_t, lock_acquire(p, 1); return 0;)
WRAPTIMED(pthread_rwlock_timedwrlock, pthread_rwlock_t, lock_acquire(p, 2); return 0;)
WRAPCLOCK(pthread_rwlock_clockwrlock, pthread_rwlock_t, lock_acquire(p, 2); return 0;)
static void cond_sleep(void* c, pthread_mutex_t* m) {
    if (!conc || !ncur) fail("deadlock", "the only thread waits for a signal");
    auto& f = F[ncur];
    f.wait_lock = c; f.wait_mode = 1; // before the release, which is a scheduling point: a signal may come already
    f.signalled = false;
    lock_release(m);
    if (!f.signalled) { f.wait_lock = c; block_current(); }
    f.wait_lock = nullptr;
    lock_acquire(m, mutex_mode(m));
}
static void cond_wake(void* c) {
    step();
    for (int i = 1; i < nf; ++i) if (F[i].wait_lock == c) { F[i].signalled = true; if (F[i].state == 2) { F[i].state = 1; resched = true; } } // one or all: a waiter may wake up for nothing
    if (conc && ncur) event(true);
}
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m);
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!g_sut) return __real_pthread_cond_wait(c, m); cond_sleep(c, m); return 0; }
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec*);
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t);
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (!g_sut) return __real_pthread_cond_timedwait(c, m, t); lock_release(m); yield_current(); lock_acquire(m, mutex_mode(m)); return ETIMEDOUT; }
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t);
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (!g_sut) return __real_pthread_cond_clockwait(c, m, k, t); lock_release(m); yield_current(); lock_acquire(m, mutex_mode(m)); return ETIMEDOUT; }
WRAPLOCK(pthread_cond_signal, pthread_cond_t, cond_wake(p); return 0;)
WRAPLOCK(pthread_cond_broadcast, pthread_cond_t, cond_wake(p); return 0;)
int __real_sched_yield();
int __wrap_sched_yield();
int __wrap_sched_yield() { if (!g_sut) return __real_sched_yield(); step(); yield_current(); return 0; }
int __real_clock_gettime(clockid_t, timespec*);
int __wrap_clock_gettime(clockid_t, timespec*);
int __wrap_clock_gettime(clockid_t c, timespec* t) { // simulated: 100ns for each step
    if (!g_sut) return __real_clock_gettime(c, t);
    uint64_t n = 1600000000000000000ull + steps * 100;
    t->tv_sec = time_t(n / 1000000000); t->tv_nsec = long(n % 1000000000);
    return 0;
}
time_t __real_time(time_t*);
time_t __wrap_time(time_t*);
time_t __wrap_time(time_t* t) {
    if (!g_sut) return __real_time(t);
    timespec s; __wrap_clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
int __real_nanosleep(const timespec*, timespec*);
int __wrap_nanosleep(const timespec* t, timespec* r);
int __wrap_nanosleep(const timespec* t, timespec* r) { if (!g_sut) return __real_nanosleep(t, r); step(); yield_current(); return 0; }

int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) {
    if (g_sut) { acc(a, n, false); acc(b, n, false); }
    return __real_memcmp(a, b, n);
}

// --- function-local statics ---
int __cxa_guard_acquire(uint64_t* g);
void __cxa_guard_release(uint64_t* g);
void __cxa_guard_abort(uint64_t* g);
int __cxa_guard_acquire(uint64_t* g) {
    auto* b = (volatile uint8_t*)g;
    while (true) {
        if (b[0]) {
            if (g_sut && conc) { Sync& y = sync_at((uintptr_t)g); vjoin(F[ncur].vc, y.vc); }
            return 0;
        }
        if (!b[1]) break;
        if (!g_sut || !conc || !ncur) fail("deadlock", "recursive initialization of a static");
        F[ncur].wait_lock = (void*)g; F[ncur].wait_mode = 1;
        block_current();
        F[ncur].wait_lock = nullptr;
    }
    b[1] = 1;
    return 1;
}
static void guard_done(uint64_t* g) {
    if (g_sut && conc) {
        Sync& y = sync_at((uintptr_t)g);
        memcpy(y.vc, F[ncur].vc, sizeof y.vc);
        ++F[ncur].vc[ncur];
        for (int i = 1; i < nf; ++i) if (F[i].state == 2 && F[i].wait_lock == (void*)g) { F[i].state = 1; resched = true; }
    }
}
int __real___cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso);
int __wrap___cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso);
int __wrap___cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) {
    auto& f = F[ncur];
    if (!g_sut) return __real___cxa_thread_atexit(fn, obj, dso);
    if (f.nexits == 16) fail("harness", "too many thread-locals");
    f.exits[f.nexits].fn = fn;
    f.exits[f.nexits++].obj = obj;
    return 0;
}
// call_once: the control is 0, 1 while it is busy, 2 when it is done
int __real_pthread_once(pthread_once_t* c, void (*fn)());
int __wrap_pthread_once(pthread_once_t* c, void (*fn)());
int __wrap_pthread_once(pthread_once_t* c, void (*fn)()) {
    if (!g_sut) return __real_pthread_once(c, fn);
    auto* b = (volatile int*)c;
    while (*b == 1) {
        if (!conc || !ncur) fail("deadlock", "recursive call_once");
        F[ncur].wait_lock = (void*)c; F[ncur].wait_mode = 1;
        block_current();
        F[ncur].wait_lock = nullptr;
    }
    if (*b == 2) {
        if (conc) { Sync& y = sync_at((uintptr_t)c); vjoin(F[ncur].vc, y.vc); }
        return 0;
    }
    *b = 1;
    struct End { // also if it throws
        volatile int* b; bool ok;
        ~End() { *b = ok ? 2 : 0; guard_done((uint64_t*)b); }
    } e{b, false};
    fn();
    e.ok = true;
    return 0;
}
void __cxa_guard_release(uint64_t* g) { auto* b = (volatile uint8_t*)g; b[0] = 1; b[1] = 0; guard_done(g); }
void __cxa_guard_abort(uint64_t* g) { auto* b = (volatile uint8_t*)g; b[1] = 0; guard_done(g); }

[[noreturn]] void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) noexcept {
    g_sut = 0;
    if (!R) { fprintf(stderr, "assert %s %s:%u\n", e, file, line); abort(); }
    char c[96];
    snprintf(c, sizeof c, "assert: %s", e);
    const char* s = strrchr(file, '/');
    fail(c, "assertion failed: %s (%s:%u, %s) in fiber %d op %d", e, s ? s + 1 : file, line, fn, ncur, F[ncur].op);
}
}

// --- global allocation ---
static void* gnew(size_t n, size_t a) {
    if (g_sut) return sut_alloc(n, a, 0);
    void* p = a <= 16 ? malloc(n ? n : 1) : aligned_alloc(a, (n + a - 1) / a * a);
    if (!p) abort();
    return p;
}
static void gdel(void* p, size_t n, size_t a) {
    if (!p) return;
    if (in_arena(p)) dealloc(p, n, a, 0);
    else free(p);
}
void* operator new(size_t n) { return gnew(n, 16); }
void* operator new[](size_t n) { return gnew(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return gnew(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return gnew(n, size_t(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return gnew(n, 16); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return gnew(n, 16); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { gdel(p, unknown, unknown); }
void operator delete[](void* p) noexcept { gdel(p, unknown, unknown); }
void operator delete(void* p, size_t n) noexcept { gdel(p, n, unknown); }
void operator delete[](void* p, size_t n) noexcept { gdel(p, n, unknown); }
void operator delete(void* p, std::align_val_t a) noexcept { gdel(p, unknown, size_t(a)); }
void operator delete[](void* p, std::align_val_t a) noexcept { gdel(p, unknown, size_t(a)); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { gdel(p, n, size_t(a)); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { gdel(p, n, size_t(a)); }
void operator delete(void* p, const std::nothrow_t&) noexcept { gdel(p, unknown, unknown); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { gdel(p, unknown, unknown); }
