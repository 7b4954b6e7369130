// Deterministic runtime: fibers, scheduler, cooperative locks, memory arena with
// precise addressability, happens-before race detection, allocation faults.
// Compiled without instrumentation. See DESIGN.md.
#pragma once
#include <stddef.h>
#include <stdint.h>

#if defined(DSIM_COVERAGE) // tools/coverage.sh
extern "C" int __llvm_profile_write_file(void);
#define DSIM_EXIT(c) (__llvm_profile_write_file(), _exit(c))
#else
#define DSIM_EXIT(c) _exit(c)
#endif

namespace rt {

constexpr int MAXF = 5; // fiber 0 is main, 1..4 are workers

struct Fault {
    enum Kind : int { none = 0, alloc_nth = 1, alloc_from = 2, cb_error = 3, cb_throw = 4, cb_oom = 5, cb_other = 6 };
    static constexpr int nkinds = 7;
    int kind = 0;
    int n = 0; // 1-based
};

// one scheduling decision: at event ev of operation op of fiber, continue with target
struct Switch {
    int fiber, op;
    uint32_t ev;
    int target;
};

struct Sched {
    enum Mode : int { explicit_list = 0, random = 1, pct = 2 };
    int mode = 0;
    uint64_t seed = 0;
    int acc_period = 0;    // random: mean number of accesses between switches (0: never)
    int sync_percent = 50; // random: chance to switch at synchronization events
    int npoints = 0;       // pct: priority change points
    uint32_t points[8] = {};
    int writer_pref = 0;   // lock preference
};

constexpr int MAX_SWITCHES = 4096;
constexpr int MAX_PROBES = 512;

// result of a run, lives in memory which is shared with the parent
struct Result {
    volatile int done;   // 1: completed, 2: violation
    char cls[96];
    char msg[1400];
    uint64_t trace_hash, sched_hash, state_hash;
    uint64_t events, conc_events, accesses, switches, forced_switches, allocs, lock_blocks;
    uint32_t faults_fired[7];
    int nswitch;
    Switch rec[MAX_SWITCHES];
    // per executed op: number of fault points seen. index: global op number in the plan
    int nops;
    struct OpStat { uint16_t allocs, cbs; uint32_t evs; } ops[512];
    uint32_t probes[MAX_PROBES];
    int lin_nodes, lin_inconclusive;
    int skipped, executed;
    uint32_t kinds[64]; // operations which were executed, by kind
};

extern Result* R;

void init_process();                 // map arenas; once per process, before forks
void begin_run(const Sched& s, const Switch* sw, int nsw); // in the child
void end_run();
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

// scopes: code between sut_enter and sut_leave is the system under test
extern int g_sut;
int sut_set(int v); // returns old
struct SutScope { int o; SutScope() : o(sut_set(1)) {} ~SutScope() { sut_set(o); } };
struct HarnessScope { int o; HarnessScope() : o(sut_set(0)) {} ~HarnessScope() { sut_set(o); } };

// operations
void op_begin(int opidx, int statidx, Fault f); // current fiber
void op_end();
bool fault_fired();      // in current op of the current fiber
int callback_event();    // a failable user callback: returns fault kind to apply or 0
void sync_event();       // a yield point
void hold_faults(bool on); // neither counted nor injected

// memory
void* alloc(size_t n, size_t a, int pool);            // arena allocation (no faults)
void* sut_alloc(size_t n, size_t a, int pool);        // arena allocation, failable (throws bad_alloc)
bool sut_alloc_fails();                               // count a fault point only
void dealloc(void* p, size_t n, size_t a, int pool);  // n or a == ~0: not known
bool in_arena(const void* p);
bool addressable(const void* p, size_t n);
bool block_of(const void* p, uintptr_t& begin, size_t& size, int& pool);
uint64_t serial_of(const void* p);                    // which allocation the block which begins at p is
void access(const void* p, size_t n, bool write);     // explicit tracked access
void poison(const void* p, size_t n);                 // a range of globals must not be accessed any more
void renew(const void* p, size_t n);                  // it is new memory
int outstanding(int pool);
void check_leaks(unsigned pool_mask);
extern void (*on_free)(uintptr_t begin, size_t size);
void note_fill(int v, bool reuse);                    // contents of new memory; freed memory is used again in sequential phases

// fibers
int cur();
int cur_op();              // index of the operation of the current fiber
void run_workers(int n, void (*fn)(int));
bool concurrent();
void allow_steps(uint64_t n); // before something long
uint64_t stamp(); // global event sequence number
uint64_t mix(uint64_t h, uint64_t v);
void trace(uint64_t v);

constexpr size_t unknown = ~size_t(0);
}

// "this rare condition was hit" counters
extern "C" const char* __start_probes[];
extern "C" const char* __stop_probes[];
#define PROBE(name) do { \
    static const char* _probe __attribute__((section("probes"), used)) = name; \
    if (::rt::R) ++::rt::R->probes[&_probe - __start_probes]; } while (0)
