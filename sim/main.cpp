// The driver: seeded search over plans, faults and schedules; minimisation; replay; evidence.
#include "gen.h"
#include <algorithm>
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace {
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
uint64_t mix64(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x9e3779b97f4a7c15ull + 0x1234567)); r.next(); return r.next(); }
uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

template <typename T> T* shared_mem(size_t n = 1) {
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return static_cast<T*>(p);
}

// ---- one run ----
void reset_result() {
    auto* r = rt::R;
    int ns = r->nswitch;
    r->done = 0; r->cls[0] = r->msg[0] = 0;
    r->trace_hash = r->sched_hash = r->state_hash = 0;
    r->events = r->conc_events = r->accesses = r->switches = r->forced_switches = r->allocs = r->lock_blocks = 0;
    memset(r->faults_fired, 0, sizeof r->faults_fired);
    memset(r->rec, 0, sizeof(rt::Switch) * size_t(ns));
    r->nswitch = 0; r->nops = 0;
    memset(r->ops, 0, sizeof r->ops);
    memset(r->probes, 0, sizeof r->probes);
    r->lin_nodes = r->lin_inconclusive = r->skipped = r->executed = 0;
    memset(r->kinds, 0, sizeof r->kinds);
}

void run_child(const Plan& p) {
    reset_result();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (pid == 0) {
        rt::begin_run(p.sched, p.sw.data(), int(p.sw.size()));
        run_plan(p);
        rt::end_run();
        rt::R->done = 1;
        DSIM_EXIT(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    auto* r = rt::R;
    if (r->done == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    if (r->done != 2) {
        r->done = 2;
        if (WIFSIGNALED(st)) {
            int s = WTERMSIG(st);
            snprintf(r->cls, sizeof r->cls, s == SIGKILL ? "harness" : "crash:%d", s);
            snprintf(r->msg, sizeof r->msg, "the process was ended by signal %d", s);
        }
        else {
            snprintf(r->cls, sizeof r->cls, "exit");
            snprintf(r->msg, sizeof r->msg, "the process exited with status %d", WEXITSTATUS(st));
        }
    }
}
bool violated() { return rt::R->done == 2; }

// ---- which violation classes belong to which properties ----
bool has(const std::string& l, const char* id) { return l.find(id) != std::string::npos; }
bool class_of_property(const std::string& c, const std::string& id) {
    static const std::set<std::string> object_classes = {"mixin-state", "mixin-place", "object-of", "construct-over", "dead-mixin", "callback-args",
        "double-destroy", "not-destroyed", "wrong-init", "object-state"};
    auto starts = [&](const char* s) { return c.compare(0, strlen(s), s) == 0; };
    if (c == "harness") return false;
    if (starts("v1-module")) return id == "C18";
    if (starts("v1-type")) return has("C17 C18", id.c_str());
    if (starts("v1-query")) return has("C17 C18", id.c_str());
    if (starts("v1-")) return id == "C17";
    if (object_classes.count(c)) return has("C17 C18 C01 C02 C03 C05 C08 C10 C11 C12 C13 C14", id.c_str());
    if (c == "object-query") return has("C01 C02 C03 C04 C05 C06 C07 C08 C10 C11 C12 C13 C14", id.c_str());
    if (c == "type-mutation") return has("C16 C12 C05 C02", id.c_str());
    if (c == "rule-order") return has("C04 C05 C09 C14", id.c_str());
    if (c == "description") return id == "C14";
    if (starts("domain:") || starts("history:")) return has("C01 C04 C05 C06 C07 C08 C09 C12 C13 C14 C15 C16", id.c_str());
    if (c == "type-query") return has("C04 C05 C06 C07 C08 C12 C13", id.c_str());
    if (c == "type-changed") return has("C04 C05 C07 C09 C13", id.c_str());
    if (c == "stale-request") return has("C04 C07 C15 C18", id.c_str());
    if (c == "traverse" || c == "dump") return has("C15 C05 C12", id.c_str());
    if (c == "message") return has("C05 C08 C11 C13", id.c_str());
    if (c == "compare") return has("C05 C10 C12 C13", id.c_str());
    if (c == "object-count") return has("C17 C18 C01 C02 C03 C05 C07 C10 C11 C13", id.c_str());
    if (c == "domain-life") return has("C04 C05 C06 C07 C09 C12", id.c_str());
    if (c == "domain-misc") return has("C12 C06", id.c_str());
    return true;
}

struct Known { std::string property, cls, contains, line; };
std::vector<Known> known;
void load_known(const std::string& f) {
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l)) {
        if (l.compare(0, 6, "known:")) continue;
        Known k; k.line = l;
        std::istringstream s(l.substr(6));
        std::string w;
        while (s >> w) {
            if (!w.compare(0, 9, "property=")) k.property = w.substr(9);
            else if (!w.compare(0, 6, "class=")) k.cls = w.substr(6);
            else if (!w.compare(0, 9, "contains=")) {
                std::string rest; std::getline(s, rest);
                k.contains = w.substr(9) + rest;
            }
        }
        known.push_back(k);
    }
}

// ---- variants ----
const Op* op_by_stat(const Plan& p, int i) {
    if (i < int(p.setup.size())) return &p.setup[size_t(i)];
    i -= int(p.setup.size());
    for (auto& w : p.work) { if (i < int(w.size())) return &w[size_t(i)]; i -= int(w.size()); }
    return i < int(p.tail.size()) ? &p.tail[size_t(i)] : nullptr;
}

struct Base { // what the run without faults told
    rt::Result::OpStat ops[512];
    uint64_t conc_events;
    int n;
};

void set_schedule(Plan& p, Rng& r, uint64_t conc_events) {
    p.sw.clear();
    p.sched.seed = r.next();
    p.sched.writer_pref = r.chance(50);
    p.sched.npoints = 0;
    p.sched.acc_period = 0;
    if (r.chance(40)) {
        p.sched.mode = rt::Sched::pct;
        p.sched.npoints = r.range(1, 6);
        for (int i = 0; i < p.sched.npoints; ++i) p.sched.points[i] = uint32_t(1 + r.next() % std::max<uint64_t>(conc_events, 1));
        std::sort(p.sched.points, p.sched.points + p.sched.npoints);
    }
    else {
        p.sched.mode = rt::Sched::random;
        static const int sp[] = {5, 20, 50, 80}, ap[] = {0, 0, 30, 200, 1000};
        p.sched.sync_percent = sp[r.below(4)];
        p.sched.acc_period = ap[r.below(5)];
    }
}

bool add_faults(Plan& p, Rng& r, const Base& b) {
    int cand[512], n = 0;
    for (int i = 0; i < b.n && i < 512; ++i) if (b.ops[i].allocs || b.ops[i].cbs) cand[n++] = i;
    if (!n) return false;
    int k = r.chance(55) ? 1 : r.range(2, 4);
    for (int j = 0; j < k; ++j) {
        int i = cand[r.below(n)];
        // operations on objects are preferred
        for (int t = 0; t < 2 && !b.ops[i].cbs; ++t) i = cand[r.below(n)];
        Op* o = const_cast<Op*>(op_by_stat(p, i));
        if (!o) continue;
        auto& s = b.ops[i];
        if (s.cbs && (!s.allocs || r.chance(50))) {
            int x = r.below(100);
            o->fault.kind = x < 40 ? rt::Fault::cb_error : x < 70 ? rt::Fault::cb_throw : x < 85 ? rt::Fault::cb_oom : rt::Fault::cb_other;
            o->fault.n = 1 + r.below(s.cbs);
        }
        else {
            o->fault.kind = r.chance(20) ? rt::Fault::alloc_from : rt::Fault::alloc_nth;
            o->fault.n = 1 + r.below(s.allocs);
        }
    }
    return true;
}

struct Variants {
    const Profile& pr;
    uint64_t seed;
    Plan base;
    Base b;
    int nvar = 0;
    bool faults = false;
    Variants(const Profile& p, uint64_t s) : pr(p), seed(s), base(generate(p, s)) {}
    void note_base() { // after the run of variant 0
        memcpy(b.ops, rt::R->ops, sizeof b.ops);
        b.conc_events = rt::R->conc_events;
        b.n = int(base.nops());
        Rng r(mix64(seed, 77));
        faults = r.chance(pr.faults);
        nvar = (faults ? 5 : 0) + (base.cfg.nfibers ? faults ? 2 : 4 : 0);
    }
    bool make(int k, Plan& p) { // k >= 1
        Rng r(mix64(seed, 1000 + uint64_t(k)));
        p = base;
        if (base.cfg.nfibers) set_schedule(p, r, b.conc_events);
        if (faults && k <= 5) return add_faults(p, r, b);
        return base.cfg.nfibers > 0;
    }
};

// ---- shared state of a check ----
constexpr size_t TAB = size_t(1) << 22;
struct HashTab {
    std::atomic<uint64_t> v[TAB];
    std::atomic<uint64_t> count;
    bool add(uint64_t h) { // true: new
        if (!h) h = 1;
        if (count.load(std::memory_order_relaxed) > TAB / 10 * 9) return false;
        for (size_t i = h & (TAB - 1);; i = (i + 1) & (TAB - 1)) {
            uint64_t e = v[i].load(std::memory_order_relaxed);
            if (e == h) return false;
            if (!e) {
                if (v[i].compare_exchange_strong(e, h)) { ++count; return true; }
                if (e == h) return false;
            }
        }
    }
};
struct Shared {
    std::atomic<int> found;  // 1: a worker claims, 2: text is complete
    std::atomic<int> error;
    char text[1 << 20];
    char found_cls[96];
    char found_msg[1400];
    char error_msg[1000];
    uint64_t found_index; int found_variant;
    std::atomic<uint64_t> plans, runs, fault_free, with_faults, concurrent, doubles, ops, skipped, events, conc_events, switches, allocs, lock_blocks, lin_runs, lin_nodes, lin_inconclusive, nontrivial, others, knowns;
    std::atomic<uint64_t> faults[rt::Fault::nkinds];
    std::atomic<uint64_t> fault_runs;
    std::atomic<uint64_t> probes[rt::MAX_PROBES];
    std::atomic<uint64_t> kinds[64];
    char other_cls[96], other_msg[1400];
    std::atomic<int> other_set;
    HashTab traces, scheds, states;
};
Shared* G;

bool same_result(const rt::Result& a, const rt::Result& b) {
    return a.done == b.done && !strcmp(a.cls, b.cls) && a.trace_hash == b.trace_hash && a.sched_hash == b.sched_hash && a.state_hash == b.state_hash && a.events == b.events;
}

void account(const Plan& p) {
    auto& r = *rt::R;
    ++G->runs;
    if (p.cfg.nfibers) ++G->concurrent;
    G->ops += uint64_t(r.executed > 0 ? r.executed : 0); G->skipped += uint64_t(r.skipped);
    G->events += r.events; G->conc_events += r.conc_events;
    G->switches += r.switches + r.forced_switches; G->allocs += r.allocs; G->lock_blocks += r.lock_blocks;
    if (p.cfg.nfibers) ++G->lin_runs;
    G->lin_nodes += uint64_t(r.lin_nodes); G->lin_inconclusive += uint64_t(r.lin_inconclusive);
    bool fired = false;
    for (int i = 0; i < rt::Fault::nkinds; ++i) { G->faults[i] += r.faults_fired[i]; fired |= r.faults_fired[i] > 0; }
    if (fired) ++G->fault_runs;
    for (int i = 0; i < rt::MAX_PROBES; ++i) if (r.probes[i]) G->probes[i] += r.probes[i];
    for (int i = 0; i < 64; ++i) if (r.kinds[i]) G->kinds[i] += r.kinds[i];
    bool isnew = G->traces.add(r.trace_hash);
    if (p.cfg.nfibers) G->scheds.add(r.sched_hash);
    G->states.add(r.state_hash);
    if (isnew && r.executed >= 3 && (fired || r.switches + r.forced_switches >= 2)) ++G->nontrivial;
}

// true: go on
bool handle(const Plan& p, const std::string& prop, uint64_t index, int variant) {
    if (!violated()) return true;
    std::string cls = rt::R->cls;
    if (!class_of_property(cls, prop)) {
        ++G->others;
        if (!G->other_set.exchange(1)) { memcpy(G->other_cls, rt::R->cls, sizeof G->other_cls); snprintf(G->other_msg, sizeof G->other_msg, "index %lu variant %d: %s", (unsigned long)index, variant, rt::R->msg); }
        return true;
    }
    for (auto& k : known) {
        if (k.property == prop && k.cls == cls && std::string(rt::R->msg).find(k.contains) != std::string::npos) { ++G->knowns; return true; }
    }
    int e = 0;
    if (G->found.compare_exchange_strong(e, 1)) {
        std::string t = plan_text(p);
        // the schedule which was taken
        Plan q = p;
        q.sched.mode = rt::Sched::explicit_list;
        q.sched.npoints = 0;
        q.sw.assign(rt::R->rec, rt::R->rec + rt::R->nswitch);
        std::string t2 = plan_text(q);
        if (t.size() + t2.size() + 2 < sizeof G->text) { memcpy(G->text, t.c_str(), t.size() + 1); memcpy(G->text + t.size() + 1, t2.c_str(), t2.size() + 1); }
        memcpy(G->found_cls, rt::R->cls, sizeof G->found_cls);
        memcpy(G->found_msg, rt::R->msg, sizeof G->found_msg);
        G->found_index = index; G->found_variant = variant;
        G->found = 2;
    }
    return false;
}

void determinism(const Plan& p, uint64_t index, int variant) {
    static rt::Result first;
    first = *rt::R;
    run_child(p);
    ++G->doubles;
    if (!same_result(first, *rt::R)) {
        if (!G->error.exchange(1))
            snprintf(G->error_msg, sizeof G->error_msg, "run of index %lu variant %d is not repeatable: %d %s %lx/%lx/%lx and %d %s %lx/%lx/%lx", (unsigned long)index, variant,
                first.done, first.cls, (long)first.trace_hash, (long)first.sched_hash, (long)first.state_hash, rt::R->done, rt::R->cls, (long)rt::R->trace_hash, (long)rt::R->sched_hash, (long)rt::R->state_hash);
    }
    *rt::R = first;
}

struct Opts {
    std::string property, tier = "quick", out, replays = ".", known, corpus, pos;
    uint64_t seed = 1;
    double time = 40;
    int jobs = 8;
    uint64_t runs = 0; // plans
    uint64_t index = 0;
    int variant = 0;
    int dbl = 64;
    bool verbose = false, raw = false;
};

uint64_t plan_seed(const Opts& o, uint64_t index) { return mix64(mix64(o.seed, hash_str(o.property)), index); }

void worker(const Opts& o, int w, double deadline) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rt::R = shared_mem<rt::Result>();
    rt::init_process();
    const Profile& pr = *find_profile(o.property);
    uint64_t nrun = 0;
    auto stop = [&] { return G->found || G->error || now() > deadline; };
    for (uint64_t i = uint64_t(w); !stop() && (!o.runs || i < o.runs); i += uint64_t(o.jobs)) {
        Variants v(pr, plan_seed(o, i));
        ++G->plans;
        run_child(v.base);
        if (!handle(v.base, o.property, i, 0)) return;
        if (violated()) continue; // a class of another property
        account(v.base);
        ++G->fault_free;
        v.note_base();
        if (o.dbl && ++nrun % unsigned(o.dbl) == 1) determinism(v.base, i, 0);
        Plan p;
        for (int k = 1; k <= v.nvar && !stop(); ++k) {
            if (!v.make(k, p)) continue;
            run_child(p);
            if (!handle(p, o.property, i, k)) return;
            if (violated()) continue;
            account(p);
            if (k <= 5 && v.faults) ++G->with_faults; else ++G->fault_free;
            if (o.dbl && ++nrun % unsigned(o.dbl) == 1) determinism(p, i, k);
        }
    }
}

// ---- minimisation ----
struct Minimiser {
    std::string cls;
    double deadline;
    Plan best;
    int tries = 0;
    bool late() { return now() > deadline; }
    bool test(const Plan& p) {
        ++tries;
        run_child(p);
        return violated() && cls == rt::R->cls;
    }
    bool take(const Plan& p) { if (!test(p)) return false; best = p; return true; }

    static std::vector<Op*> all_ops(Plan& p) {
        std::vector<Op*> v;
        for (auto& o : p.setup) v.push_back(&o);
        for (auto& w : p.work) for (auto& o : w) v.push_back(&o);
        for (auto& o : p.tail) v.push_back(&o);
        return v;
    }
    bool ops() {
        bool any = false;
        std::vector<size_t> live;
        { auto v = all_ops(best); for (size_t i = 0; i < v.size(); ++i) if (v[i]->kind) live.push_back(i); }
        size_t chunk = std::max<size_t>(1, live.size() / 2);
        while (!late()) {
            bool did = false;
            for (size_t at = live.size(); at > 0 && !late();) { // from the end
                size_t lo = at > chunk ? at - chunk : 0;
                Plan p = best;
                auto v = all_ops(p);
                for (size_t i = lo; i < at; ++i) *v[live[i]] = [&] { Op n; n.fiber = v[live[i]]->fiber; return n; }();
                if (take(p)) { live.erase(live.begin() + long(lo), live.begin() + long(at)); did = any = true; }
                at = lo;
            }
            if (chunk == 1) { if (!did) break; }
            else chunk /= 2;
        }
        return any;
    }
    bool faults() {
        bool any = false;
        size_t n = all_ops(best).size();
        for (size_t i = 0; i < n && !late(); ++i) {
            if (!all_ops(best)[i]->fault.kind) continue;
            Plan p = best;
            all_ops(p)[i]->fault = rt::Fault();
            any |= take(p);
        }
        return any;
    }
    bool args() {
        bool any = false;
        size_t n = all_ops(best).size();
        for (size_t i = 0; i < n && !late(); ++i) {
            if (!all_ops(best)[i]->kind) continue;
            if (all_ops(best)[i]->kind == O_DOM_MISC && all_ops(best)[i]->a[0] == 6) { // a domain of many mixins: fewer ones, and fewer steps
                for (int most = 4; most < 300 && !late(); most = most * 3 / 2) {
                    if (all_ops(best)[i]->a[4] && all_ops(best)[i]->a[4] <= most) break;
                    Plan p = best;
                    all_ops(p)[i]->a[4] = most;
                    if (take(p)) { any = true; break; }
                }
                for (int k = 23; k >= 0 && !late(); --k) {
                    if (all_ops(best)[i]->a[3] >> k & 1) continue;
                    Plan p = best;
                    all_ops(p)[i]->a[3] |= int64_t(1) << k;
                    any |= take(p);
                }
                continue;
            }
            for (int k = NARG - 1; k >= 1 && !late(); --k) {
                if (!all_ops(best)[i]->a[k]) continue;
                Plan p = best;
                all_ops(p)[i]->a[k] = 0;
                any |= take(p);
            }
        }
        return any;
    }
    bool switches() {
        bool any = false;
        size_t chunk = std::max<size_t>(1, best.sw.size() / 2);
        while (!late() && best.sw.size()) {
            bool did = false;
            for (size_t at = best.sw.size(); at > 0 && !late();) {
                size_t lo = at > chunk ? at - chunk : 0;
                Plan p = best;
                p.sw.erase(p.sw.begin() + long(lo), p.sw.begin() + long(at));
                if (take(p)) did = any = true;
                at = lo;
            }
            if (chunk == 1) { if (!did) break; }
            else chunk /= 2;
        }
        return any;
    }
    bool config() {
        bool any = false;
        auto set = [&](auto f) {
            if (late()) return;
            Plan p = best;
            f(p.cfg);
            if (plan_text(p) != plan_text(best)) any |= take(p);
        };
        set([](Config& c) { c.canon = 0; }); set([](Config& c) { c.dup_mixins = 0; }); set([](Config& c) { c.dup_features = 0; });
        set([](Config& c) { c.dom_pool = 0; }); set([](Config& c) { c.dom_c = 0; }); set([](Config& c) { c.gc_conc = 0; });
        set([](Config& c) { c.fname4 = c.fname5 = 0; });
        for (int m = 0; m < NM; ++m) {
            set([&](Config& c) { MixCfg x; int fn = c.mix[m].fn; int ow = c.mix[m].owner; x.fn = fn; x.owner = ow; c.mix[m] = x; });
            set([&](Config& c) { c.mix[m].nfeat = 0; }); set([&](Config& c) { c.mix[m].alloc = 0; });
            set([&](Config& c) { c.mix[m].dep = 0; }); set([&](Config& c) { c.mix[m].prio = 0; });
            set([&](Config& c) { c.mix[m].name = MixCfg().name; }); set([&](Config& c) { c.mix[m].force_ext = 0; });
            while (best.cfg.mix[m].nfeat > 0) { int n = best.cfg.mix[m].nfeat; set([&](Config& c) { --c.mix[m].nfeat; }); if (best.cfg.mix[m].nfeat == n) break; }
        }
        return any;
    }
    void compact() {
        Plan p = best;
        auto strip = [](std::vector<Op>& v) { v.erase(std::remove_if(v.begin(), v.end(), [](const Op& o) { return !o.kind; }), v.end()); };
        for (int f = 1; f < rt::MAXF; ++f) {
            std::vector<int> to;
            int n = 0;
            for (auto& o : p.work[f]) to.push_back(o.kind ? n++ : n);
            for (auto& s : p.sw) if (s.fiber == f && s.op < int(to.size())) s.op = to[size_t(s.op)];
            strip(p.work[f]);
        }
        strip(p.setup); strip(p.tail);
        if (take(p)) return;
        // only sequential parts
        p = best; strip(p.setup); strip(p.tail);
        take(p);
    }
    void run() {
        for (int i = 0; i < 6 && !late(); ++i) {
            bool any = ops();
            any |= faults();
            any |= switches();
            any |= args();
            if (i == 0) any |= config();
            if (!any) break;
        }
        compact();
        config();
        test(best);
    }
};

std::string one_line(std::string s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }

std::string replay_text(const Opts& o, const Plan& p, const rt::Result& r) {
    char b[300];
    snprintf(b, sizeof b, "# trace=%016lx schedule=%016lx events=%lu\n", (unsigned long)r.trace_hash, (unsigned long)r.sched_hash, (unsigned long)r.events);
    return "# property=" + o.property + " class=" + r.cls + "\n# " + one_line(r.msg) + "\n# VERIF_SEED=" + std::to_string(o.seed) + " index=" + std::to_string(G ? G->found_index : 0) +
        " variant=" + std::to_string(G ? G->found_variant : 0) + "\n" + b + plan_text(p);
}

bool read_file(const std::string& f, std::string& s) {
    std::ifstream in(f, std::ios::binary);
    if (!in) return false;
    std::stringstream ss; ss << in.rdbuf();
    s = ss.str();
    return true;
}

std::string json_str(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

void print_result() {
    auto& r = *rt::R;
    if (violated()) printf("violation class=%s: %s\n", r.cls, r.msg);
    else printf("no violation\n");
    printf("trace=%016lx schedule=%016lx state=%016lx events=%lu concurrent=%lu switches=%lu+%lu ops=%d skipped=%d\n", (unsigned long)r.trace_hash, (unsigned long)r.sched_hash,
        (unsigned long)r.state_hash, (unsigned long)r.events, (unsigned long)r.conc_events, (unsigned long)r.switches, (unsigned long)r.forced_switches, r.executed, r.skipped);
}

int cmd_replay(const Opts& o) {
    std::string s, err;
    Plan p;
    if (!read_file(o.pos, s)) { fprintf(stderr, "cannot read %s\n", o.pos.c_str()); return 2; }
    if (!plan_parse(s, p, err)) { fprintf(stderr, "%s: %s\n", o.pos.c_str(), err.c_str()); return 2; }
    rt::R = shared_mem<rt::Result>();
    rt::init_process();
    run_child(p);
    print_result();
    return violated() ? 1 : 0;
}

int cmd_run(const Opts& o) { // debug: prints and runs one run of the search
    rt::R = shared_mem<rt::Result>();
    rt::init_process();
    const Profile* pr = find_profile(o.property);
    if (!pr) return 2;
    Variants v(*pr, plan_seed(o, o.index));
    run_child(v.base);
    Plan p = v.base;
    if (o.variant) {
        v.note_base();
        if (!v.make(o.variant, p)) { printf("no such variant\n"); return 2; }
        run_child(p);
    }
    if (o.verbose) fputs(plan_text(p).c_str(), stdout);
    print_result();
    return violated() ? 1 : 0;
}

// found: minimise, check that it is repeatable, report
int report(const Opts& o, double budget, std::string& path) {
    rt::R = shared_mem<rt::Result>();
    rt::init_process();
    std::string t1 = G->text, t2 = G->text + t1.size() + 1, err;
    Plan p1, p2;
    if (!plan_parse(t1, p1, err) || !plan_parse(t2, p2, err)) { fprintf(stderr, "harness error: plan does not parse: %s\n", err.c_str()); return 2; }
    Minimiser m;
    m.cls = G->found_cls;
    m.deadline = now() + budget;
    if (m.test(p2)) m.best = p2;
    else if (m.test(p1)) m.best = p1;
    else {
        fprintf(stderr, "harness error: the violation (%s: %s) at index %lu variant %d does not repeat\n", G->found_cls, G->found_msg, (unsigned long)G->found_index, G->found_variant);
        return 2;
    }
    m.run();
    Plan best = m.best;
    static rt::Result a;
    run_child(best);
    a = *rt::R;
    run_child(best);
    if (!violated() || m.cls != a.cls || !same_result(a, *rt::R)) { fprintf(stderr, "harness error: the minimised run is not repeatable\n"); return 2; }
    mkdir(o.replays.c_str(), 0755);
    char name[200];
    std::string c = m.cls;
    for (auto& ch : c) if (!isalnum((unsigned char)ch)) ch = '-';
    snprintf(name, sizeof name, "/%s-%s-%016lx.plan", o.property.c_str(), c.substr(0, 40).c_str(), (unsigned long)plan_hash(best));
    path = o.replays + name;
    { std::ofstream f(path); f << replay_text(o, best, a); if (!f) { fprintf(stderr, "harness error: cannot write %s\n", path.c_str()); return 2; } }
    // in a fresh process
    int fd[2];
    if (pipe(fd)) return 2;
    pid_t pid = fork();
    if (pid == 0) {
        dup2(fd[1], 1); close(fd[0]); close(fd[1]);
        execl("/proc/self/exe", "dsim", "replay", path.c_str(), (char*)nullptr);
        _exit(9);
    }
    close(fd[1]);
    std::string out; char b[4096]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, size_t(n));
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    char want[64];
    snprintf(want, sizeof want, "trace=%016lx", (unsigned long)a.trace_hash);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 1 || out.find(want) == std::string::npos || out.find("class=" + m.cls + ":") == std::string::npos) {
        fprintf(stderr, "harness error: the replay file does not reproduce in a fresh process:\n%s", out.c_str());
        return 2;
    }
    auto nops = best.nops();
    int nf = 0;
    for (auto* op : Minimiser::all_ops(best)) nf += op->fault.kind != 0;
    printf("%s: %s\n", a.cls, a.msg);
    printf("found at VERIF_SEED=%lu index=%lu variant=%d; minimised with %d runs to %zu operations, %d faults, %zu switches\n", (unsigned long)o.seed, (unsigned long)G->found_index, G->found_variant, m.tries, nops, nf, best.sw.size());
    return 1;
}

int cmd_check(const Opts& o) {
    const Profile* pr = find_profile(o.property);
    if (!pr) { fprintf(stderr, "unknown property %s\n", o.property.c_str()); return 2; }
    double t0 = now(), deadline = t0 + o.time;
    printf("VERIF_SEED=%lu property=%s tier=%s\n", (unsigned long)o.seed, o.property.c_str(), o.tier.c_str());
    G = shared_mem<Shared>();
    load_known(o.known);
    fflush(nullptr);
    std::vector<pid_t> ws;
    for (int w = 0; w < o.jobs; ++w) {
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 2; }
        if (pid == 0) { worker(o, w, deadline); _exit(0); }
        ws.push_back(pid);
    }
    bool bad = false;
    for (pid_t w : ws) {
        int st = 0;
        while (waitpid(w, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true;
    }
    double search = now() - t0;
    int rc = 0;
    std::string path;
    if (G->found == 2 && o.raw) { printf("%s: %s\nindex %lu variant %d\n", G->found_cls, G->found_msg, (unsigned long)G->found_index, G->found_variant); rc = 1; }
    else if (G->found == 2) rc = report(o, o.tier == "quick" ? 60 : 240, path);
    else if (G->error) { fprintf(stderr, "harness error: %s\n", G->error_msg); rc = 2; }
    else if (bad || G->found) { fprintf(stderr, "harness error: a worker failed\n"); rc = 2; }
    else if (G->other_set && !strcmp(G->other_cls, "harness")) { fprintf(stderr, "harness error: %s\n", G->other_msg); rc = 2; }
    for (auto& k : known) if (k.property == o.property) printf("KNOWN-FINDING: property=%s %s\n", k.property.c_str(), k.line.c_str());
    if (G->other_set) printf("note: %lu runs ended with violations of other properties, the first %s: %s\n", (unsigned long)G->others, G->other_cls, G->other_msg);

    // evidence
    std::ostringstream e;
    auto num = [&](const char* k, double v) { char b[64]; snprintf(b, sizeof b, "%.15g", v); e << json_str(k) << ": " << b << ", "; };
    e << "{\"property\": " << json_str(o.property) << ", \"tier\": " << json_str(o.tier) << ", \"seed\": " << o.seed << ", \"level\": \"exploration\", \"coverage\": {";
    num("evaluations", double(G->runs)); num("distinct_nontrivial", double(G->nontrivial));
    e << "\"rule\": " << json_str("Each evaluation is one simulated run of the real library: a plan (configuration, operations, faults, schedule) derived from VERIF_SEED, the property and an index. "
        "Runs without faults are made first; their counted allocations and callbacks place the faults of the following variants. A run is non-trivial and distinct if at least 3 operations reached the library, "
        "at least one injected fault fired or at least two context switches between fibers took place, and the hash of its trace (operations, memory accesses, allocations, callbacks, synchronization, switches) was not seen before.") << ", ";
    num("plans", double(G->plans)); num("runs_without_faults", double(G->fault_free)); num("runs_with_planned_faults", double(G->with_faults)); num("runs_where_faults_fired", double(G->fault_runs));
    num("runs_with_concurrent_fibers", double(G->concurrent)); num("runs_executed_twice_for_determinism", double(G->doubles));
    num("runs_per_hour", search > 0 ? double(G->runs) / search * 3600 : 0); num("plan_seeds_per_hour", search > 0 ? double(G->plans) / search * 3600 : 0);
    num("distinct_traces", double(G->traces.count)); num("distinct_interleavings_by_hash_of_switches", double(G->scheds.count)); num("distinct_model_state_sequences", double(G->states.count));
    num("operations_executed", double(G->ops)); num("operations_skipped_as_not_allowed", double(G->skipped));
    num("simulated_time_in_events", double(G->events)); num("scheduling_points", double(G->conc_events)); num("context_switches", double(G->switches));
    num("lock_waits", double(G->lock_blocks)); num("allocations", double(G->allocs));
    num("histories_checked_for_linearizability", double(G->lin_runs)); num("linearizability_search_nodes", double(G->lin_nodes)); num("linearizability_inconclusive", double(G->lin_inconclusive));
    static const char* const fk[] = {"none", "failed allocation (one)", "failed allocations (all from one on)", "callback returned an error", "callback threw", "callback threw bad_alloc", "callback threw something which is not an std::exception"};
    e << "\"faults_fired\": {";
    for (int i = 1; i < rt::Fault::nkinds; ++i) e << (i > 1 ? ", " : "") << json_str(fk[i]) << ": " << G->faults[i].load();
    e << "}, \"operations_by_kind\": {";
    bool first = true;
    for (int i = 1; i < O_COUNT; ++i) if (G->kinds[i]) { e << (first ? "" : ", ") << json_str(op_names[i]) << ": " << G->kinds[i].load(); first = false; }
    e << "}, \"probes\": {";
    std::map<std::string, uint64_t> pm;
    for (long i = 0; i < __stop_probes - __start_probes && i < rt::MAX_PROBES; ++i) pm[__start_probes[i]] += G->probes[i];
    first = true;
    for (auto& x : pm) { e << (first ? "" : ", ") << json_str(x.first) << ": " << x.second; first = false; }
    e << "}, \"components\": {\"real\": " << json_str("all of /repo/code/dynamix (C++ and C interface), /repo/v1compat (C17, C18) and libstdc++ containers, compiled from the working tree")
      << ", \"simulated\": " << json_str("threads (fibers), pthread mutexes and rwlocks, atomics (sequentially consistent values; ordering checked by vector clocks), heap, static initialization guards, callbacks of the user (mixins, rules, messages, allocators); in C17 and C18 also the order of static initialization, exit handlers and the loading of a plugin")
      << ", \"stub\": " << json_str("itlib and splat headers (stand-ins in /verif/shim, the originals are not available offline); v1compat's message macros are expanded from its templates by a python script instead of its ruby one") << "}, ";
    num("violations_of_other_properties", double(G->others)); num("runs_ending_in_known_findings", double(G->knowns));
    e << "\"samples\": [";
    {
        for (int i = 0; i < 2; ++i) {
            Plan p = generate(*pr, plan_seed(o, uint64_t(i)));
            // without the configuration
            std::string t = plan_text(p), s;
            std::istringstream in(t);
            std::string l;
            while (std::getline(in, l)) if (!l.compare(0, 5, "setup") || !l.compare(0, 4, "work") || !l.compare(0, 4, "tail") || !l.compare(0, 5, "sched")) s += l + "\n";
            if (s.size() > 3000) s.resize(3000);
            e << (i ? ", " : "") << json_str("index " + std::to_string(i) + "\n" + s);
        }
    }
    e << "]}, \"assumptions\": [" << json_str("a clean batch is evidence, not proof: plans, faults and schedules are sampled") << ", "
      << json_str("interleavings are sequentially consistent; weak memory effects are covered only by the happens-before race check") << ", "
      << json_str("allocation failures and callback errors are injected at the points where the run without faults allocates or calls back") << "], ";
    char b[200];
    snprintf(b, sizeof b, "\"wall_s\": %.2f, \"violations\": %d}\n", now() - t0, rc == 1 ? 1 : 0);
    e << b;
    if (!o.out.empty()) {
        std::ofstream f(o.out + ".tmp");
        f << e.str();
        f.close();
        if (!f || rename((o.out + ".tmp").c_str(), o.out.c_str())) { fprintf(stderr, "harness error: cannot write %s\n", o.out.c_str()); rc = 2; }
    }
    printf("%lu runs of %lu plans in %.1f s (%.0f per hour), %lu distinct non-trivial, %lu faults fired, %lu interleavings\n", (unsigned long)G->runs, (unsigned long)G->plans, search, double(G->runs) / search * 3600,
        (unsigned long)G->nontrivial, (unsigned long)(G->faults[1] + G->faults[2] + G->faults[3] + G->faults[4] + G->faults[5] + G->faults[6]), (unsigned long)G->scheds.count);
    if (o.verbose) {
        for (auto& x : pm) printf("  probe %8lu %s\n", (unsigned long)x.second, x.first.c_str());
        for (int i = 1; i < O_COUNT; ++i) printf("  op %8lu %s\n", (unsigned long)G->kinds[i], op_names[i]);
    }
    if (rc == 0 && !G->runs) { fprintf(stderr, "harness error: nothing was run\n"); rc = 2; }
    if (rc == 1) printf("VIOLATION property=%s replay=%s\n", o.property.c_str(), path.c_str());
    fflush(nullptr);
    return rc;
}
}

int main(int argc, char** argv) {
    Opts o;
    std::string cmd = argc > 1 ? argv[1] : "";
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--property") o.property = val();
        else if (a == "--tier") o.tier = val();
        else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--time") o.time = atof(val().c_str());
        else if (a == "--jobs") o.jobs = std::max(1, atoi(val().c_str()));
        else if (a == "--out") o.out = val();
        else if (a == "--replays") o.replays = val();
        else if (a == "--known") o.known = val();
        else if (a == "--runs") o.runs = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--index") o.index = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--variant") o.variant = atoi(val().c_str());
        else if (a == "--double") o.dbl = atoi(val().c_str());
        else if (a == "-v") o.verbose = true;
        else if (a == "--raw") o.raw = true; // for experiments: no minimisation
        else o.pos = a;
    }
    if (cmd == "check") return cmd_check(o);
    if (cmd == "replay") return cmd_replay(o);
    if (cmd == "run") return cmd_run(o);
    fprintf(stderr, "usage: dsim check|replay|run ...\n");
    return 2;
}
