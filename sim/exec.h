// Shared parts of the executor of operations.
#pragma once
#include "world.h"
#include <functional>

namespace ex {
// flags of the executor
extern unsigned regm, regf, regt;       // registered infos
extern int rulecnt[NRALL];
extern unsigned start_feats;            // registered when the concurrent phase started
extern unsigned md_frozen;
extern std::vector<ML> pinned;          // lists of the types which are pinned (gc_conc)
extern int cur_ops[rt::MAXF];
extern int cur_fault[rt::MAXF]; // kind
#define cur_op cur_ops[rt::cur()]

// all of 0..n-1; a site starts where it ended the last time, so that the same question
// is asked of different things one after another
struct Sweep {
    struct It {
        int i, left, n;
        int operator*() const { return i; }
        void operator++() { if (--left) i = i + 1 == n ? 0 : i + 1; }
        bool operator!=(const It& o) const { return left != o.left; }
    };
    int start, n;
    Sweep(uint8_t* last, int n_) : start(last[rt::cur()]), n(n_) { last[rt::cur()] = uint8_t((start + n - 1) % n); }
    It begin() const { return {start, n, n}; }
    It end() const { return {0, 0, n}; }
};
#define SWEEP(n) ::ex::Sweep([] { static uint8_t last[rt::MAXF]; return last; }(), n)

inline bool conc() { return rt::concurrent() && rt::cur() != 0; }
inline bool gcc() { return conc() && W.cfg.gc_conc; }

// runs a part of the system under test; false: it threw
template <typename F> bool sut(F&& f) {
    try { rt::SutScope ss; f(); return true; }
    catch (std::exception&) {}
    catch (other_error&) {}
    catch (...) { rt::HarnessScope hs; rt::fail("foreign-exception", "a call threw something which is not an std::exception"); }
    return false;
}
// the same from a destructor while another exception is in flight
bool sut_in_flight(const std::function<void()>& f);
// a C function; exceptions must not leave it
template <typename F> bool csut(F f) {
    bool ok = false;
    ++in_c[rt::cur()];
    if (!sut([&] { ok = f(); })) rt::fail("c-interface", "an exception left a C function");
    --in_c[rt::cur()];
    return ok;
}
inline bool sut_maybe(bool in_flight, const std::function<void()>& f) { return in_flight ? sut_in_flight(f) : sut([&] { f(); }); }

bool csut_maybe(bool in_flight, const std::function<bool()>& f);
void swallowed(const char* what); // fails if a user function failed: then success is wrong

struct Call { // a call on the domain
    Rec local;
    Rec* r;
    bool c;
    Call(int kind) : c(conc()) {
        if (c) r = &hist_begin(kind);
        else { local.kind = kind; local.op = cur_op; r = &local; }
        r->op = cur_op;
    }
    Rec* operator->() { return r; }
    void ret(bool ok) {
        r->ok = ok; r->fault = rt::fault_fired();
        if (ok && r->kind == RC_GET_TYPE) swallowed("a request for a type");
        if (c) {
            for (int i = 0; i < ml_n(r->req); ++i) { int m = ml_at(r->req, i); if (m >= MD0) md_frozen |= 1u << (m - MD0); }
            hist_end(*r);
        }
    }
    void fin() { if (!c) dom_apply_now(*r); }
};

bool mix_ok(int m);           // may this fiber use the mixin now
bool list_ok(ML l);
bool name_unique(int m);      // among all mixins, and not empty
int first_named(ML l, const std::string& n); // index or -1
bool feat_ok(int f);          // may features be queried
ML read_type(const dx::type& t);             // the list of a type
int row_of(const dx::type& t, ML known);     // its row, -2: the empty type
bool request_allowed(ML req); // may the request be made at all
bool eval_now(ML req, ML& out); // only where rules are stable
bool pinned_type(ML l);
void live_start();            // objects of the fibers while types are collected concurrently
void live_op(bool begin);
// does a request; null if it fails
const dx::type* request(ML req, int how, ML& list);
bool usable(int slot, bool write);
struct Prov { int idx, bid, prio; };
std::vector<Prov> providers(ML l, int f);
bool tc_model(int t, ML l);
int type_cmp_model(ML a, ML b); // sign, sequential only
bool has_default(int f);
void check_type(const dx::type& t, ML l, int full); // queries
bool no_fault_expected(bool ok, bool must_fail, const char* what); // common check of results; returns ok

// objects
void verify_object(int slot, int level);
void forget(ObjModel& o);
void check_all(int level);
bool exec_object(const Op& op);
// stats
void skip();
}
