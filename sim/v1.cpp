// The static world: what its modules do at start, when a plugin is loaded and unloaded, and at exit; the executor of its
// operations and their models. See DESIGN.md.
#include "exec.h"
#include "v1.h"
#include <dynamix/mutate.hpp>
#include <algorithm>
#include <array>
#include <string.h>
#include <unordered_set>

using namespace ex;
using namespace v1w;
using rt::fail;
using rt::HarnessScope;
using rt::SutScope;
namespace v1 = dx::v1compat;

extern "C" {
typedef void (*init_fn)();
extern init_fn __start_v1init_lib[], __stop_v1init_lib[], __start_v1init_msgs[], __stop_v1init_msgs[];
extern init_fn __start_v1init_world[], __stop_v1init_world[], __start_v1init_plug[], __stop_v1init_plug[];
extern char __start_plugdata[], __stop_plugdata[]; // all globals of the plugin
int __real___cxa_atexit(void (*f)(void*), void* a, void* d);
int __wrap___cxa_atexit(void (*f)(void*), void* a, void* d);
}

namespace v1w {
plug_info_fn plug_info;
const dx::type_class* plug_class;
}

namespace {
// ---- modules ----
bool active;       // the static world is in use
int module;        // 0 the program, 1 the plugin is being loaded
struct Exit { int module; void (*f)(void*); void* a; };
std::vector<Exit> exits;
}
extern "C" int __wrap___cxa_atexit(void (*f)(void*), void* a, void* d) {
    if (!active || !rt::g_sut) return __real___cxa_atexit(f, a, d);
    HarnessScope hs;
    exits.push_back({module, f, a});
    return 0;
}

namespace {
// ---- tables of the world ----
struct Use { int msg, bid, prio; };
struct MixDef { const char* name; int dom; bool dep, copy; std::vector<Use> use; };
const MixDef mdef[NVM] = {
    {"v1w::ma", 0, false, true, {{M_U0, 0, 0}, {M_C1, 0, 0}, {M_K2, 0, 1}}},
    {"v1w::mb", 0, false, true, {{M_U0, 1, 0}, {M_C1, 0, 2}, {M_B5, 0, 0}, {M_D3, 0, 0}}},
    {"v1w::mc", 0, false, true, {{M_U0, 2, -1}, {M_K2, 0, 0}, {M_E4, 0, 0}, {M_B5, 1, 3}}},
    {"v1w::md", 0, true, true, {{M_C1, -1, 0}, {M_E4, -1, -2}}},
    {"a custom name", 0, false, true, {{M_C1, -1, 0}, {M_OV1, 0, 0}, {M_OV2, 0, 0}}},
    {"v1w::mf", 0, false, false, {{M_B5, 0, 0}, {M_OV1, 1, 0}, {M_OV2, 0, 0}, {M_U0, 1, 0}}},
    {"v1w::mg", 0, false, true, {{M_C1, 0, 0}, {M_E4, -1, 0}}},
    {"v1w::mh", 0, false, true, {}},
    {"v1w::mp", 0, false, true, {{M_U0, 2, 0}, {M_C1, 0, 1}, {M_B5, 1, 0}}},
    {"core style in v1", 0, false, true, {{M_E4, -1, 4}, {M_D3, 1, 0}}},
    {"n0", 1, false, true, {{M_W0, 0, 0}, {M_W1, 1, 0}}},
    {"n1", 1, false, true, {{M_W1, 1, -2}, {M_W0, -1, 0}}},
    {"n2", 1, false, true, {{M_W0, 2, 0}, {M_W1, 0, 0}, {M_P0, 1, 0}}},
    {"n3", 1, true, true, {{M_W1, 1, 0}, {M_P0, 1, 3}}},
};
const bool multi[NVMSG] = {false, true, true, false, true, true, false, true, false, true, false};
const bool hasdef[NVMSG] = {false, false, false, true, true, false, false, false, true, false, true};
const char* const mname[NVMSG] = {"u0", "c1", "k2", "d3", "e4", "b5", "ov_one", "ov_two", "w0_msg", "w1_msg", "p0_msg"};
bool is_plug(int m) { return m == VM_P || m == VM_Q || m == VM_N2 || m == VM_N3; }

const dx::feature_info* feature(int msg) {
    switch (msg) {
    case M_U0: return &u0_msg_t::info;
    case M_C1: return &c1_msg_t::info;
    case M_K2: return &k2_msg_t::info;
    case M_D3: return &d3_msg_t::info;
    case M_E4: return &e4_msg_t::info;
    case M_B5: return &b5_msg_t::info;
    case M_OV1: return &ov_one_msg_t::info;
    case M_OV2: return &ov_two_msg_t::info;
    case M_W0: return &w0_msg::info;
    case M_W1: return &w1_msg::info;
    default: return &p0_msg::info;
    }
}

template <typename T> struct tag { using type = T; };
template <typename F> auto with_mixin(int m, F f) {
    switch (m) {
    case 0: return f(tag<ma>());
    case 1: return f(tag<mb>());
    case 2: return f(tag<mc>());
    case 3: return f(tag<md>());
    case 4: return f(tag<me>());
    case 5: return f(tag<mf>());
    case 6: return f(tag<mg>());
    default: return f(tag<mh>());
    }
}
bool typed(int m) { return m < NVWORLD || m == VM_N0 || m == VM_N1; }
template <typename F> auto with_typed(int m, F f) {
    if (m == VM_N0) return f(tag<n0>());
    if (m == VM_N1) return f(tag<n1>());
    return with_mixin(m, f);
}

// ---- state ----
struct VInst { int mix; uint32_t id; int val; int how; bool moved; };
std::map<uintptr_t, VInst> insts;
uint32_t next_id = 1;

constexpr int NVO = 8, NSHARED = 2;
struct VObj {
    bool alive = false;
    v1::object* ptr = nullptr;
    int dom = 0, owner = 0;
    ML type = 0;
    uint32_t id[15] = {};
    int val[15] = {};
} objs[NVO];

bool loaded;
int nloads;
int plug_fiber;                 // who may use the plugin in the concurrent phase

dx::domain* dom(int d) { return d ? &dx::g::get_domain<w2_domain>() : &v1::domain::instance(); }
const dx::mixin_info* minfo(int m) { HarnessScope hs; return is_plug(m) ? plug_info ? plug_info(m) : nullptr : world_info(m); }
bool mine() { return !conc() || rt::cur() == plug_fiber; }
bool may_use(int m) { return !is_plug(m) || (mine() && loaded); }
bool msg_there(int k) { return k != M_P0 || (mine() && loaded); }
bool list_ok_v(ML l) { for (int i = 0; i < ml_n(l); ++i) if (ml_at(l, i) >= NVM || !may_use(ml_at(l, i))) return false; return true; }
int mix_of(const dx::mixin_info* p) { HarnessScope hs; for (int m = 0; m < NVM; ++m) if (p && minfo(m) == p) return m; return -1; }

bool v1_list(const dx::type& t, ML& l) {
    l = 0;
    for (auto* i : t.mixins) {
        int m = mix_of(i);
        if (m < 0) return false;
        l = ml_add(l, m);
    }
    return true;
}
ML list_of(const dx::type& t) {
    ML l = 0;
    bool ok = true;
    { SutScope ss; ok = v1_list(t, l); }
    if (!ok) fail("v1-type", "a type has a mixin which is not known");
    return l;
}

// ---- what the call of a message must do ----
struct Log { int msg, mix, x; bool operator==(const Log& o) const { return msg == o.msg && mix == o.mix && x == o.x; } };
std::vector<Log> logs[rt::MAXF];
const void* call_obj[rt::MAXF];

int msg_val(int msg, int mix, int x) { return (mix + 3) * 11 + msg * 5 + (x & 255) * 7; }
int join(int r, int next) { return (r * 31 + next * 3 + 1) & 0xffff; }
int def_val(int msg, int x) { return 1000 + msg * 10 + (x & 255); }

struct P { int idx, mix, bid, prio; };
std::vector<P> provs(ML l, int msg) {
    std::vector<P> v;
    for (int i = 0; i < ml_n(l); ++i) for (auto& u : mdef[ml_at(l, i)].use) if (u.msg == msg) v.push_back({i, ml_at(l, i), u.bid, u.prio});
    std::sort(v.begin(), v.end(), [](const P& a, const P& b) {
        if (a.bid != b.bid) return a.bid > b.bid;
        if (a.prio != b.prio) return a.prio < b.prio;
        return a.idx > b.idx;
    });
    return v;
}
struct Sim {
    ML l;
    std::vector<Log> log;
    bool failed = false;
    int invoke(int msg, int mix, int x) {
        log.push_back({msg, mix, x});
        int r = msg_val(msg, mix, x);
        bool chains = (msg == M_U0 && mix != 9) || (msg == M_C1 && mix != 6) || (msg == M_E4 && mix != -1);
        if (!chains) return r;
        int mode = x >> 8;
        if (mode != CALL_NEXT && mode != CALL_FORCE) return r;
        std::vector<P> next;
        int own = 0;
        auto v = provs(l, msg);
        for (auto& p : v) if (p.mix == mix) own = p.bid;
        for (auto& p : v) if (p.bid < own && (next.empty() || next[0].bid == p.bid)) next.push_back(p);
        if (next.empty()) {
            if (mode == CALL_FORCE) failed = true;
            return r;
        }
        int nr = 0;
        if (multi[msg]) for (size_t i = next.size(); i--;) { nr = invoke(msg, next[i].mix, x); if (failed) return 0; }
        else nr = invoke(msg, next[0].mix, x);
        if (failed) return 0;
        return join(r, nr);
    }
};

// ---- rules ----
enum { VR_CUSTOM, VR_ONESHOT, VR_DEP, VR_EXCL, VR_DEPR, VR_MAND, VR_SUBST, VR_N };
constexpr int NVR = 6, NID = 16;
struct VRule {
    v1::mutation_rule* ptr = nullptr; // while it exists
    std::shared_ptr<v1::mutation_rule> held;
    bool adding = false;              // a call which adds it goes on
    int how = 0;
} rules[NVR];
typedef std::array<int8_t, NID> Reg; // by id: rule or -1
Reg reg;
const V1Rule& rcfg(int r) { return W.cfg.v1.rule[r]; }

void rule_destroyed(int r, const void* p) {
    HarnessScope hs;
    if (rules[r].ptr != p) fail("v1-rules", "rule %d is destroyed, but it is not alive", r);
    rules[r].ptr = nullptr;
    rt::trace(uint64_t(r) + 900);
}

template <typename Base> struct Tracked final : Base {
    int r;
    explicit Tracked(int i) : r(i) {}
    ~Tracked() override { rule_destroyed(r, static_cast<v1::mutation_rule*>(this)); }
};
struct Custom : v1::mutation_rule {
    int a = 0, b = 0, c = 0;
    void apply_to(dx::type_mutation& mut) override {
        {
            HarnessScope hs;
            if (int k = rt::callback_event()) user_throw(k);
        }
        auto& ia = *world_info(a);
        auto& ib = *world_info(b);
        if (!mut.has(ia)) return;
        switch (c) {
        case 0: mut.add_if_lacking(ib); break;
        case 1: mut.remove(ia); break;
        case 2: mut.remove(ib); break;
        case 3: if (mut.has(ib)) { HarnessScope hs; user_throw(0); } break;
        default: mut.remove(ia); mut.add_if_lacking(ib); break;
        }
    }
};

// may throw
v1::mutation_rule* make_rule(int r) { // in a SUT scope
    auto& c = rcfg(r);
    auto list = [&](v1::impl::mixin_list& l, bool one) {
        auto add = [&](int m) {
            if (c.byname == 1) l.add(std::string_view(mdef[m].name));
            else if (c.byname == 2) with_mixin(m, [&](auto t) { l.template add<typename decltype(t)::type>(); });
            else l.add(*world_info(m));
        };
        add(c.b);
        if (!one && c.c != c.b) add(c.c);
    };
    auto keep = [&](auto* p) -> v1::mutation_rule* { rules[r].ptr = p; return p; };
    // an incomplete rule is not announced
    struct Guard { // (the rule is created by user code: no leak if it can not be completed)
        int r; v1::mutation_rule* p;
        ~Guard() { if (p) { rules[r].ptr = p; delete p; } }
    };
    switch (c.kind) {
    case VR_ONESHOT: {
        auto* p = new Tracked<v1::dependent_mixins_oneshot>(r);
        Guard g{r, p};
        with_mixin(c.a, [&](auto t) { p->template set_master<typename decltype(t)::type>(); });
        list(*p, false);
        g.p = nullptr;
        return keep(p);
    }
    case VR_DEP: {
        auto* p = new Tracked<v1::dependent_mixins_dep>(r);
        Guard g{r, p};
        with_mixin(c.a, [&](auto t) { p->template set_master<typename decltype(t)::type>(); });
        list(*p, true);
        g.p = nullptr;
        return keep(p);
    }
    case VR_EXCL: {
        auto* p = new Tracked<v1::mutually_exclusive_mixins>(r);
        Guard g{r, p};
        p->add(*world_info(c.a));
        list(*p, false);
        g.p = nullptr;
        return keep(p);
    }
    case VR_DEPR: return with_mixin(c.a, [&](auto t) { return keep(new Tracked<v1::deprecated_mixin<typename decltype(t)::type>>(r)); });
    case VR_MAND: return with_mixin(c.a, [&](auto t) { return keep(new Tracked<v1::mandatory_mixin<typename decltype(t)::type>>(r)); });
    case VR_SUBST:
        return with_mixin(c.a, [&](auto t) {
            return with_mixin(c.b, [&](auto u) { return keep(new Tracked<v1::substitute_mixin<typename decltype(t)::type, typename decltype(u)::type>>(r)); });
        });
    default: {
        auto* p = new Tracked<Custom>(r);
        p->a = c.a; p->b = c.b; p->c = c.c % 5;
        return keep(p);
    }
    }
}

// the rule of the model; nonzero: it fails
int rule_model(const V1Rule& c, ML& l) {
    auto rem = [&](int m) { int i = ml_find(l, m); if (i >= 0) l = ml_erase(l, i); };
    auto lack = [&](int m) { if (!ml_has(l, m)) l = ml_add(l, m); };
    switch (c.kind) {
    case VR_ONESHOT: if (ml_has(l, c.a)) { lack(c.b); lack(c.c); } return 0;
    case VR_DEP: if (!ml_has(l, c.a)) return 0; if (!mdef[c.b].dep) return 1; lack(c.b); return 0;
    case VR_EXCL: {
        ML o = 0;
        int last = -1;
        auto ex = [&](int m) { return m == c.a || m == c.b || m == c.c; };
        for (int i = 0; i < ml_n(l); ++i) if (ex(ml_at(l, i))) last = i;
        for (int i = 0; i < ml_n(l); ++i) if (!ex(ml_at(l, i)) || i == last) o = ml_add(o, ml_at(l, i));
        l = o;
        return 0;
    }
    case VR_DEPR: rem(c.a); return 0;
    case VR_MAND: lack(c.a); return 0;
    case VR_SUBST: if (ml_has(l, c.a)) { rem(c.a); l = ml_add(l, c.b); } return 0;
    default:
        if (!ml_has(l, c.a)) return 0;
        switch (c.c % 5) {
        case 0: lack(c.b); return 0;
        case 1: rem(c.a); return 0;
        case 2: rem(c.b); return 0;
        case 3: return ml_has(l, c.b);
        default: rem(c.a); lack(c.b); return 0;
        }
    }
}

// 0 a type, 1 a rule fails or they do not settle, 2 the type is not valid
int settle(int d, const int* ord, int n, ML req, ML& out) {
    ML last = req, cur = 0;
    for (int i = 0; i < ml_n(req); ++i) if (!mdef[ml_at(req, i)].dep) cur = ml_add(cur, ml_at(req, i));
    int count = d ? 3 : n + 1; // (the rules of the plugin are there whenever its mixins are; the others settle in any case)
    for (int i = 0;; ++i) {
        if (d) { // in the order of their names
            if (ml_has(cur, VM_N1) && !ml_has(cur, VM_N0)) cur = ml_add(cur, VM_N0);
            if (ml_has(cur, VM_N2) && ml_has(cur, VM_N1)) cur = ml_erase(cur, ml_find(cur, VM_N1));
            if (ml_has(cur, VM_N2) && !ml_has(cur, VM_N3)) cur = ml_add(cur, VM_N3);
        }
        else {
            for (int k = 0; k < n; ++k) if (rule_model(rcfg(ord[k]), cur)) return 1;
            int v[16], c = ml_n(cur);
            for (int k = 0; k < c; ++k) v[k] = ml_at(cur, k);
            std::stable_sort(v, v + c, [](int a, int b) { return strcmp(mdef[a].name, mdef[b].name) < 0; });
            ML x = 0;
            for (int k = 0; k < c; ++k) x = ml_add(x, v[k]);
            cur = x;
        }
        if (last == cur) break;
        if (i == 5 || (i > 0 && i >= count)) return 1;
        last = cur;
    }
    out = cur;
    for (int i = 0; i < ml_n(cur); ++i) {
        if (mdef[ml_at(cur, i)].dom != d) return 2;
        for (int j = i + 1; j < ml_n(cur); ++j) if (ml_at(cur, i) == ml_at(cur, j)) return 2;
    }
    for (int m = 0; m < NVMSG; ++m) {
        if (multi[m]) continue;
        auto v = provs(cur, m);
        for (size_t i = 1; i < v.size(); ++i) if (v[i].bid == v[i - 1].bid && v[i].prio == v[i - 1].prio) return 2;
    }
    return 0;
}
struct Outcomes { std::vector<ML> lists; bool error = false; };
const Outcomes& outcomes(int d, unsigned mask, ML req) {
    static std::map<std::pair<unsigned, ML>, Outcomes> memo;
    if (memo.size() > 20000) memo.clear();
    auto key = std::make_pair(mask | unsigned(d) << 16, req);
    auto f = memo.find(key);
    if (f != memo.end()) return f->second;
    Outcomes o;
    int ord[NVR], n = 0;
    if (!d) for (int i = 0; i < NVR; ++i) if (mask >> i & 1) ord[n++] = i;
    do {
        ML l = 0;
        if (settle(d, ord, n, req, l)) o.error = true;
        else if (std::find(o.lists.begin(), o.lists.end(), l) == o.lists.end()) o.lists.push_back(l);
    } while (std::next_permutation(ord, ord + n));
    return memo[key] = o;
}
unsigned active_mask(const Reg& r) { unsigned m = 0; for (auto x : r) if (x >= 0) m |= 1u << x; return m; }

// ---- history of the concurrent phase ----
enum { VH_ADD, VH_REM, VH_REQ };
struct VRec {
    int kind, fiber, op;
    uint64_t inv, res;
    int rule = -1, id = -1;
    bool ok = false, fault = false;
    int dom = 0;
    ML req = 0, list = 0;
    bool any_error = false; // it may fail for local reasons
};
std::vector<VRec> hist[rt::MAXF];
std::string rec_str(const VRec& r) {
    char b[160];
    const char* res = r.ok ? "ok" : r.fault ? "failed by a fault" : "failed";
    if (r.kind == VH_ADD) snprintf(b, sizeof b, "f%d op %d add rule %d -> id %d %s", r.fiber, r.op, r.rule, r.id, res);
    else if (r.kind == VH_REM) snprintf(b, sizeof b, "f%d op %d remove id %d -> rule %d", r.fiber, r.op, r.id, r.rule);
    else snprintf(b, sizeof b, "f%d op %d request %s -> %s %s", r.fiber, r.op, ml_str(r.req).c_str(), r.ok ? ml_str(r.list).c_str() : "", res);
    return b;
}
// the states after a call, which must explain its result
bool step(const VRec& r, Reg& s) {
    switch (r.kind) {
    case VH_ADD:
        if (!r.ok) return r.fault;
        if (r.id < 0 || r.id >= NID || s[size_t(r.id)] >= 0) return false;
        s[size_t(r.id)] = int8_t(r.rule);
        return true;
    case VH_REM: {
        int was = r.id < NID ? s[size_t(r.id)] : -1;
        if (was != r.rule) return false;
        if (was >= 0) s[size_t(r.id)] = -1;
        return true;
    }
    default: {
        if (!r.ok && r.fault) return true;
        auto& o = outcomes(r.dom, active_mask(s), r.req);
        if (r.ok) return std::find(o.lists.begin(), o.lists.end(), r.list) != o.lists.end();
        return o.error || r.any_error;
    }
    }
}
struct VLin {
    std::unordered_set<uint64_t> seen;
    int best = -1;
    size_t bestpos[rt::MAXF];
    Reg final;
    bool dfs(const size_t* pos, const Reg& s) {
        uint64_t h = 7;
        int tot = 0;
        bool all = true;
        for (int f = 0; f < rt::MAXF; ++f) { h = rt::mix(h, pos[f]); tot += int(pos[f]); if (pos[f] < hist[f].size()) all = false; }
        if (all) { final = s; return true; }
        for (auto x : s) h = rt::mix(h, uint64_t(x + 1));
        if (!seen.insert(h).second) return false;
        ++rt::R->lin_nodes;
        if (tot > best) { best = tot; memcpy(bestpos, pos, sizeof bestpos); }
        uint64_t minres = ~0ull;
        for (int f = 0; f < rt::MAXF; ++f) if (pos[f] < hist[f].size()) minres = std::min(minres, hist[f][pos[f]].res);
        for (int f = 0; f < rt::MAXF; ++f) {
            if (pos[f] >= hist[f].size() || hist[f][pos[f]].inv > minres) continue;
            Reg n = s;
            if (!step(hist[f][pos[f]], n)) continue;
            size_t p2[rt::MAXF];
            memcpy(p2, pos, sizeof p2);
            ++p2[f];
            if (dfs(p2, n)) return true;
        }
        return false;
    }
};
void v1_lin() {
    VLin l;
    size_t pos[rt::MAXF] = {};
    if (!l.dfs(pos, reg)) {
        std::string s;
        for (int f = 0; f < rt::MAXF; ++f) for (size_t i = 0; i < 3 && l.bestpos[f] + i < hist[f].size(); ++i) s += "; " + rec_str(hist[f][l.bestpos[f] + i]);
        fail("v1-rules", "no sequential order explains the concurrent calls; %d are explained, then come%s", l.best, s.c_str());
    }
    reg = l.final;
    for (auto& h : hist) h.clear();
}
// a call is done: check it or store it
void record(VRec& r) {
    r.fault = rt::fault_fired();
    r.res = rt::stamp();
    r.fiber = rt::cur(); r.op = cur_op;
    if (conc()) { hist[rt::cur()].push_back(r); return; }
    Reg s = reg;
    if (!step(r, s)) {
        std::string a;
        for (int i = 0; i < NID; ++i) if (reg[size_t(i)] >= 0) a += " " + std::to_string(i) + ":" + std::to_string(reg[size_t(i)]);
        std::string e;
        if (r.kind == VH_REQ) { auto& o = outcomes(r.dom, active_mask(reg), r.req); for (auto l : o.lists) e += " " + ml_str(l); if (o.error) e += " error"; }
        fail(r.kind == VH_REQ ? "v1-type" : "v1-rules", "not as expected: %s; rules by id:%s; possible:%s", rec_str(r).c_str(), a.c_str(), e.c_str());
    }
    reg = s;
}

// ---- objects ----
void check_obj(int s, bool full) {
    auto& o = objs[s];
    ML l = 0;
    bool lok;
    const dx::type* t;
    { SutScope ss; t = &o.ptr->get_type(); lok = v1_list(*t, l); }
    if (!lok || l != o.type) fail("object-state", "object %d has the type %s instead of %s", s, ml_str(l).c_str(), ml_str(o.type).c_str());
    for (int i = 0; i < ml_n(l); ++i) {
        int m = ml_at(l, i);
        void* p;
        const dx::mixin_info* info = minfo(m);
        int val = 0;
        const void* ofp;
        { SutScope ss; p = o.ptr->get(*info); }
        auto f = insts.find(uintptr_t(p));
        if (f == insts.end() || f->second.mix != m || f->second.moved) fail("mixin-state", "object %d: there is no living instance of mixin %d where the object shows one", s, m);
        if (f->second.id != o.id[i]) fail("mixin-state", "object %d: mixin %d is instance %u instead of %u", s, m, f->second.id, o.id[i]);
        if (f->second.val != o.val[i]) fail("mixin-state", "object %d: mixin %d has the value %d instead of %d", s, m, f->second.val, o.val[i]);
        { SutScope ss; ofp = v1::object::of(static_cast<const void*>(p)); val = *static_cast<const int*>(p); }
        if (val != o.val[i]) fail("mixin-state", "object %d: mixin %d holds %d instead of %d", s, m, val, o.val[i]);
        if (ofp != o.ptr) fail("object-of", "object %d: the object of mixin %d is another", s, m);
    }
    if (!full) return;
    bool copyable = true, is_ab = ml_has(l, 0) && ml_has(l, 1), is_n0 = ml_has(l, VM_N0), is_n2 = ml_has(l, VM_N2);
    for (int i = 0; i < ml_n(l); ++i) if (!mdef[ml_at(l, i)].copy) copyable = false;
    bool r_copy, r_ab = is_ab, r_ab2 = is_ab, r_n0 = is_n0, r_n2 = is_n2; // only classes of the own domain are asked
    {
        SutScope ss;
        r_copy = o.ptr->copyable();
        if (!o.dom) {
            r_ab = o.ptr->is_a<tc_ab>();
            v1::type_class own(world_classes[0]->matches); // not registered
            r_ab2 = o.ptr->is_a(own);
        }
        else r_n0 = o.ptr->is_of(*world_classes[1]);
        if (o.dom && mine() && loaded) r_n2 = o.ptr->is_of(*plug_class);
    }
    if (r_copy != copyable) fail("v1-query", "object %d of %s: copyable tells %d", s, ml_str(l).c_str(), r_copy);
    if (r_ab != is_ab || r_ab2 != is_ab || r_n0 != is_n0 || r_n2 != is_n2) fail("v1-query", "object %d of %s: wrong class", s, ml_str(l).c_str());
    for (int m = 0; m < NVM; ++m) {
        if (!may_use(m)) continue;
        bool has = ml_has(l, m), r, rt_ = has, rn;
        const dx::mixin_info* info = minfo(m);
        const void *g = nullptr, *g2 = nullptr;
        {
            SutScope ss;
            r = o.ptr->has(*info);
            rn = o.ptr->has(std::string_view(mdef[m].name));
            g = o.ptr->get(*info);
            g2 = g;
            if (typed(m)) { rt_ = with_typed(m, [&](auto x) { return o.ptr->template has<typename decltype(x)::type>(); }); g2 = with_typed(m, [&](auto x) -> const void* { return o.ptr->template get<typename decltype(x)::type>(); }); }
        }
        if (mdef[m].dom != o.dom) { if (has || rn) fail("v1-query", "object %d has the name of mixin %d of another domain", s, m); continue; }
        if (r != has || rt_ != has || rn != has || !!g != has || g != g2) fail("v1-query", "object %d of %s: wrong answers about mixin %d", s, ml_str(l).c_str(), m);
    }
    for (int k = 0; k < NVMSG; ++k) {
        if ((k >= M_W0) != (o.dom == 1) || !msg_there(k)) continue;
        auto* fi = feature(k);
        bool strong = !provs(l, k).empty(), ri, rs;
        { SutScope ss; ri = o.ptr->implements(*fi); rs = o.ptr->get_type().implements_strong(*fi); }
        if (ri != (strong || hasdef[k]) || rs != strong) fail("v1-query", "object %d of %s: wrong answers about message %s", s, ml_str(l).c_str(), mname[k]);
    }
    bool io = false, ie = false;
    if (!o.dom) {
        { SutScope ss; io = o.ptr->implements(u0_msg); ie = o.ptr->implements(e4_msg); }
        if (io != !provs(l, M_U0).empty() || !ie) fail("v1-query", "object %d of %s: wrong answers about a message tag", s, ml_str(l).c_str());
    }
}
bool use(int s, bool write) {
    auto& o = objs[s];
    if (!o.alive) return false;
    if (!list_ok_v(o.type) && conc()) return false;
    if (!conc()) return true;
    if (o.owner == -1) return !write;
    return o.owner == rt::cur();
}
bool free_for(int s) { return !objs[s].alive && (!conc() || objs[s].owner == rt::cur()); }

VInst* inst_of(const dx::object& o, int m) {
    const void* p;
    { SutScope ss; p = o.get(*minfo(m)); }
    auto f = insts.find(uintptr_t(p));
    return f == insts.end() ? nullptr : &f->second;
}

// run time versions of typed operations
template <typename L> struct VOp final : AnyOp {
    L lib;
    template <typename F> VOp(F f) : lib(f()) {}
    void apply_to_type_mutation(dx::type_mutation& m) override { lib.apply_to_type_mutation(m); }
    dx::object_mutate_op* to_obj_mutate(dx::object& o) override { return lib.to_obj_mutate(o); }
};
template <typename F> AnyOp* wrap(F f) { return new VOp<decltype(f())>(f); }
struct VInit {
    int m, val;
    void operator()(dx::init_new_args a) const {
        if (typed(m)) with_typed(m, [&](auto t) { using T = typename decltype(t)::type; new (a.mixin_buf) T(val); });
    }
};

struct Edit { int what, m, by, init, val; };
Edit edit_of(int64_t e) { return {int(e & 15), int(e >> 4 & 15), int(e >> 8 & 3), int(e >> 12 & 3), int(e >> 16 & 0xfff)}; }

AnyOp* make_vop(const Edit& e) { // in a SUT scope
    auto* info = minfo(e.m);
    std::string_view name = mdef[e.m].name;
    switch (e.what) {
    case 0: case 1:
        if (e.init == 1) return with_typed(e.m, [&](auto t) { using T = typename decltype(t)::type; return wrap([&] { return dx::mutate_ops::add<T>(int(e.val)); }); });
        if (e.init == 2) return wrap([&] { return dx::mutate_ops::add(*info, VInit{e.m, e.val}); });
        if (e.init == 3) return wrap([&] { return dx::mutate_ops::add(name, VInit{e.m, e.val}); });
        if (e.by == 0) return with_typed(e.m, [&](auto t) { return wrap([&] { return dx::mutate_ops::add<typename decltype(t)::type>(); }); });
        if (e.by == 1) return wrap([&] { return dx::mutate_ops::add(*info); });
        return wrap([&] { return dx::mutate_ops::add(name); });
    case 2:
        if (e.by == 0) return with_typed(e.m, [&](auto t) { return wrap([&] { return dx::mutate_ops::remove<typename decltype(t)::type>(); }); });
        if (e.by == 1) return wrap([&] { return dx::mutate_ops::remove(*info); });
        return wrap([&] { return dx::mutate_ops::remove(name); });
    default:
        if (e.by == 0) return with_typed(e.m, [&](auto t) { return wrap([&] { return dx::mutate_ops::to_back<typename decltype(t)::type>(); }); });
        if (e.by == 1) return wrap([&] { return dx::mutate_ops::to_back(*info); });
        return wrap([&] { return dx::mutate_ops::to_back(name); });
    }
}
void grad(dx::gradual_mutation& g, const Edit& e) {
    auto* info = minfo(e.m);
    std::string_view name = mdef[e.m].name;
    switch (e.what) {
    case 0:
        if (e.by == 0) with_typed(e.m, [&](auto t) { g.add<typename decltype(t)::type>(); });
        else if (e.by == 1) g.add(*info);
        else g.add(name);
        return;
    case 1:
        if (e.by == 0) with_typed(e.m, [&](auto t) { g.add_if_lacking<typename decltype(t)::type>(); });
        else if (e.by == 1) g.add_if_lacking(*info);
        else g.add_if_lacking(name);
        return;
    case 2:
        if (e.by == 0) with_typed(e.m, [&](auto t) { g.remove<typename decltype(t)::type>(); });
        else if (e.by == 1) g.remove(*info);
        else g.remove(name);
        return;
    default:
        if (e.by == 0) with_typed(e.m, [&](auto t) { g.to_back<typename decltype(t)::type>(); });
        else if (e.by == 1) g.to_back(*info);
        else g.to_back(name);
    }
}
// nonzero: the edit itself must fail
int edit_model(int d, const Edit& e, bool variadic, ML& l) {
    bool named = e.by == 2 || (variadic && e.what <= 1 && e.init == 3);
    if (variadic && e.what <= 1 && (e.init == 1 || e.init == 2)) named = false;
    int i = ml_find(l, e.m);
    bool add = e.what == 0 || (e.what == 1 && (variadic || i < 0));
    if (e.what <= 1 && named && mdef[e.m].dom != d && !(e.what == 1 && !variadic && i >= 0)) return 1; // unknown there
    if (add) { l = ml_add(l, e.m); return 0; }
    if (e.what == 1) return 0;
    if (e.what == 2) { if (i >= 0) l = ml_erase(l, i); return 0; }
    if (i < 0) return 1;
    l = ml_add(ml_erase(l, i), e.m);
    return 0;
}

// after an attempt to change the type of an object; expect: values of new mixins (by mixin), keep: allowed new values of old ones
void after_mutation(int s, bool ok, const int* newval, int newhow) {
    auto& o = objs[s];
    if (!ok) { check_obj(s, true); return; }
    ML l;
    { SutScope ss; if (!v1_list(o.ptr->get_type(), l)) { HarnessScope hs; fail("v1-type", "an object got a mixin which is not known"); } }
    ML old = o.type;
    uint32_t oid[15]; int oval[15];
    memcpy(oid, o.id, sizeof oid); memcpy(oval, o.val, sizeof oval);
    o.type = l;
    for (int i = 0; i < ml_n(l); ++i) {
        int m = ml_at(l, i);
        int k = ml_find(old, m);
        if (k >= 0) { o.id[i] = oid[k]; o.val[i] = oval[k]; continue; }
        auto* x = inst_of(*o.ptr, m);
        if (!x || x->mix != m) fail("mixin-state", "object %d: new mixin %d was not constructed", s, m);
        o.id[i] = x->id;
        o.val[i] = newval && newval[m] >= 0 ? newval[m] : 10 + m;
        if (newval && newval[m] >= 0 ? x->how != newhow : x->how != 0) fail("wrong-init", "object %d: mixin %d was constructed in the wrong way (%d)", s, m, x->how);
    }
    check_obj(s, true);
}
void forget_v(VObj& o) { o.alive = false; o.ptr = nullptr; o.type = 0; }

bool v_mutate(const Op& op) {
    int s = int(op.a[0]);
    if (s < 0 || s >= NVO || !use(s, true)) return false;
    auto& o = objs[s];
    int how = int(op.a[1]) & 7;
    bool flight = op.a[1] & 8; // while another exception is in flight
    bool variadic = how == 2;
    std::vector<Edit> ed;
    for (int i = 2; i < 7; ++i) if (op.a[i] >> 28) ed.push_back(edit_of(op.a[i]));
    if (variadic && ed.size() > 4) ed.resize(4);
    unsigned inits = 0;
    int newval[NVM];
    for (auto& v : newval) v = -1;
    for (auto& e : ed) {
        if (e.m >= NVM || !may_use(e.m)) return false;
        if (!typed(e.m)) { if (e.by == 0) e.by = 1; e.init = 0; }
        if (mdef[e.m].dom != o.dom) { // (what is added from another domain must stay, so that it is found to be foreign)
            if (mdef[e.m].dep && is_plug(e.m)) return false;
            if (variadic && e.init && e.what <= 1 && (mdef[e.m].dep || std::any_of(ed.begin(), ed.end(), [&](const Edit& x) { return x.m == e.m && x.what == 2; }))) return false;
        }
        if (variadic && e.init && e.what <= 1) {
            if (inits >> e.m & 1) return false;
            inits |= 1u << e.m;
            newval[e.m] = e.val;
        }
    }
    if (variadic && ed.empty()) return false;
    ML req = o.type;
    bool edit_err = false;
    for (auto& e : ed) { if (edit_model(o.dom, e, variadic, req)) { edit_err = true; break; } }
    VRec r{};
    r.kind = VH_REQ; r.dom = o.dom; r.req = req;
    r.inv = rt::stamp();
    call_obj[rt::cur()] = o.ptr;
    bool ok, applied = true;
    if (variadic) {
        AnyOp* p[4] = {};
        size_t n = ed.size();
        ok = sut_maybe(flight, [&] {
            for (size_t i = 0; i < n; ++i) p[i] = make_vop(ed[i]);
            switch (n) {
            case 1: v1::mutate(*o.ptr, OpRef{p[0]}); break;
            case 2: v1::mutate(*o.ptr, OpRef{p[0]}, OpRef{p[1]}); break;
            case 3: v1::mutate(*o.ptr, OpRef{p[0]}, OpRef{p[1]}, OpRef{p[2]}); break;
            default: v1::mutate(*o.ptr, OpRef{p[0]}, OpRef{p[1]}, OpRef{p[2]}, OpRef{p[3]});
            }
        });
        SutScope ss;
        for (auto* x : p) delete x;
    }
    else {
        applied = how != 3 && how != 4;
        ok = sut_maybe(flight, [&] {
            auto g = v1::mutate(*o.ptr);
            for (auto& e : ed) grad(g, e);
            if (how == 1) g.apply();
            else if (how == 3) g.cancel();
            else if (how == 4) user_throw(0);
        });
    }
    if (flight) PROBE("v1 mutation while another exception is in flight");
    if (how == 4) PROBE("v1 mutation left by an exception");
    if (!applied) {
        bool f = rt::fault_fired();
        if (how == 3 && ok != !edit_err && !(f && !ok)) fail("v1-type", "a cancelled mutation of object %d %s", s, ok ? "succeeded although an edit must fail" : "failed for no reason");
        check_obj(s, true);
        return true;
    }
    if (edit_err) { if (ok) fail("missed-failure", "a mutation of object %d succeeded although an edit must fail", s); check_obj(s, true); return true; }
    r.ok = ok;
    if (!ok) PROBE("v1 mutation failed");
    if (ok) { r.list = list_of(o.ptr->get_type()); swallowed("a mutation"); }
    record(r);
    after_mutation(s, ok, newval, 1);
    return true;
}

bool v_get_type(const Op& op) {
    int d = op.a[0] & 1;
    ML req = 0;
    ML want = ML(op.a[1]);
    for (int i = 0; i < ml_n(want); ++i) { int m = ml_at(want, i); if (m >= NVM || !may_use(m) || (is_plug(m) && mdef[m].dep && mdef[m].dom != d)) return false; req = ml_add(req, m); }
    VRec r{};
    r.kind = VH_REQ; r.dom = d; r.req = req;
    r.inv = rt::stamp();
    const dx::type* t = nullptr;
    const dx::mixin_info* v[15];
    for (int i = 0; i < ml_n(req); ++i) v[i] = minfo(ml_at(req, i));
    bool ok = sut([&] {
        if (op.a[2] & 1) {
            dx::type_mutation mut(*dom(d));
            for (int i = 0; i < ml_n(req); ++i) mut.add(*v[i]);
            t = &dom(d)->get_type(std::move(mut));
        }
        else t = &dom(d)->get_type(itlib::span<const dx::mixin_info* const>(v, size_t(ml_n(req))));
    });
    r.ok = ok;
    if (ok) { r.list = list_of(*t); swallowed("a request"); }
    record(r);
    return true;
}

bool v_copy(const Op& op) {
    int d = int(op.a[0]), s = int(op.a[1]), how = int(op.a[2]) % 3;
    if (d < 0 || d >= NVO || s < 0 || s >= NVO || !use(s, false)) return false;
    auto& src = objs[s];
    if (how != 2) {
        if (!free_for(d) || (how == 0 && src.dom)) return false;
        auto& o = objs[d];
        call_obj[rt::cur()] = nullptr;
        v1::object* p = nullptr;
        bool ok = sut([&] {
            if (how == 0) p = new v1::object(src.ptr->copy());
            else {
                auto x = std::make_unique<v1::object>(*dom(src.dom));
                x->copy_from(*src.ptr);
                p = x.release();
            }
        });
        bool must = false;
        for (int i = 0; i < ml_n(src.type); ++i) if (!mdef[ml_at(src.type, i)].copy) must = true;
        if (!no_fault_expected(ok, must, "a copy")) return true;
        swallowed("a copy");
        o.alive = true; o.ptr = p; o.dom = src.dom; o.type = src.type;
        for (int i = 0; i < ml_n(o.type); ++i) {
            o.val[i] = src.val[i];
            auto* x = inst_of(*p, ml_at(o.type, i));
            if (!x || x->how != 2) fail("wrong-init", "a mixin of a copy was not copied");
            o.id[i] = x->id;
            for (int k = 0; k < NVO; ++k) if (k != d && objs[k].alive) for (int j = 0; j < ml_n(objs[k].type); ++j) if (objs[k].id[j] == x->id) fail("mixin-state", "a copy shares a mixin");
        }
        check_obj(d, true);
        return true;
    }
    if (!use(d, true) || objs[d].owner == -1 || objs[d].dom != src.dom || s == d) return false;
    auto& o = objs[d];
    call_obj[rt::cur()] = nullptr;
    bool ok = sut([&] { o.ptr->copy_from(*src.ptr); });
    bool must = false;
    for (int i = 0; i < ml_n(src.type); ++i) if (!mdef[ml_at(src.type, i)].copy) must = true;
    no_fault_expected(ok, must, "a copy");
    if (ok) {
        swallowed("a copy");
        ML old = o.type;
        uint32_t oid[15];
        memcpy(oid, o.id, sizeof oid);
        o.type = src.type;
        for (int i = 0; i < ml_n(o.type); ++i) {
            int m = ml_at(o.type, i), k = ml_find(old, m);
            o.val[i] = src.val[i];
            auto* x = inst_of(*o.ptr, m);
            if (!x) fail("mixin-state", "a mixin of a copy does not live");
            if (k < 0 && x->how != 2) fail("wrong-init", "a new mixin of a copy was not copied");
            o.id[i] = k >= 0 ? oid[k] : x->id;
        }
    }
    else {
        for (int i = 0; i < ml_n(o.type); ++i) { // those in common may have been assigned
            int m = ml_at(o.type, i), k = ml_find(src.type, m);
            auto* x = inst_of(*o.ptr, m);
            if (x && k >= 0 && x->val == src.val[k]) o.val[i] = x->val;
        }
    }
    check_obj(d, true);
    check_obj(s, true);
    return true;
}

bool v_move(const Op& op) {
    int d = int(op.a[0]), s = int(op.a[1]);
    if (d < 0 || d >= NVO || s < 0 || s >= NVO || s == d || !use(s, true) || objs[s].owner == -1) return false;
    auto &o = objs[d], &src = objs[s];
    if (objs[d].owner == -1 && conc()) return false;
    if (!o.alive) {
        if (!free_for(d)) return false;
        v1::object* p = nullptr;
        bool ok = sut([&] { p = new v1::object(std::move(*src.ptr)); });
        if (!no_fault_expected(ok, false, "a move")) { check_obj(s, true); return true; }
        o.ptr = p; o.alive = true; o.dom = src.dom;
    }
    else {
        if (!use(d, true) || o.dom != src.dom) return false;
        bool ok = sut([&] { *o.ptr = std::move(*src.ptr); });
        if (!no_fault_expected(ok, false, "a move assignment")) { check_obj(s, true); check_obj(d, true); return true; }
    }
    o.type = src.type;
    memcpy(o.id, src.id, sizeof o.id); memcpy(o.val, src.val, sizeof o.val);
    src.type = 0;
    check_obj(s, true);
    check_obj(d, true);
    return true;
}

// ---- messages ----
struct Stopper { // a combinator which wants only some results
    size_t num = 0, want = 0;
    std::vector<int> got;
    void set_num_results(size_t n) { num = n; }
    bool add_result(int r) { HarnessScope hs; got.push_back(r); return got.size() < want; }
};
bool v_msg(const Op& op) {
    int s = int(op.a[0]), msg = int(op.a[1]), x = int(op.a[2]), how = int(op.a[3]);
    if (s < 0 || s >= NVO || msg < 0 || msg >= NVMSG) return false;
    bool cnst = msg == M_C1 || msg == M_B5 || msg == M_OV2 || msg == M_W1;
    if (!use(s, !cnst)) return false;
    auto& o = objs[s];
    if ((msg >= M_W0) != (o.dom == 1) || !msg_there(msg)) return false;
    bool chain = msg == M_U0 || msg == M_C1 || msg == M_E4;
    if (!chain) x &= 255;
    bool comb_ok = msg == M_C1 || msg == M_E4 || msg == M_B5 || msg == M_OV2;
    if (!comb_ok) how = 0;
    auto v = provs(o.type, msg);
    std::vector<P> top;
    for (auto& p : v) if (p.bid == v[0].bid) top.push_back(p);
    int y = x * 3 & 63;
    int lx = msg == M_OV2 ? x * 3 + y : x; // what the mixins see
    Sim sim;
    sim.l = o.type;
    std::vector<int> results; // in order of execution
    if (top.empty()) {
        if (hasdef[msg]) results.push_back(def_val(msg, lx));
        else sim.failed = true;
    }
    else if (!multi[msg]) results.push_back(sim.invoke(msg, top[0].mix, lx));
    else for (size_t i = top.size(); i-- && !sim.failed;) {
        int r = sim.invoke(msg, top[i].mix, lx);
        if (sim.failed) break;
        if (msg == M_B5) r &= 1;
        results.push_back(r);
        // combinators may want no more results
        if (how == 5 && results.size() >= size_t(1 + (op.a[4] & 3))) break;
        if (msg == M_B5 && how && how < 5 && ((how & 1) ? !r : !!r)) break; // and, or
    }
    int f = rt::cur();
    logs[f].clear();
    call_obj[f] = o.ptr;
    int ret = 0;
    std::vector<int> out;
    Stopper st;
    st.want = size_t(1 + (op.a[4] & 3));
    bool second = false;
    int ret2 = 0;
    auto& ob = *o.ptr;
    auto& cob = static_cast<const dx::object&>(ob);
    tok t(x);
    bool ok = sut([&] {
        using namespace dx::v1compat::combinators;
        switch (msg) {
        case M_U0: ret = u0(ob, x); break;
        case M_C1:
            switch (how) {
            case 1: ret = c1<sum>(cob, x); break;
            case 2: ret = c1<mean>(cob, x); break;
            case 3: { sum<int> c; c1(cob, x, c); ret = c.result(); c.reset(); second = true; c1(cob, x, c); ret2 = c.result(); break; }
            case 4: { mean<int> c; c1(cob, x, c); ret = c.result(); c.reset(); second = true; c1(cob, x, c); ret2 = c.result(); break; }
            case 5: c1(cob, x, st); break;
            default: ret = c1(cob, x);
            }
            break;
        case M_K2: k2(ob, t, out); break;
        case M_D3: ret = d3(ob, x); break;
        case M_E4:
            switch (how) {
            case 1: ret = e4<sum>(ob, x); break;
            case 2: ret = e4<mean>(ob, x); break;
            case 3: { sum<int> c; e4(ob, x, c); ret = c.result(); c.reset(); second = true; e4(ob, x, c); ret2 = c.result(); break; }
            case 4: { mean<int> c; e4(ob, x, c); ret = c.result(); c.reset(); second = true; e4(ob, x, c); ret2 = c.result(); break; }
            case 5: e4(ob, x, st); break;
            default: ret = e4(ob, x);
            }
            break;
        case M_B5:
            switch (how) {
            case 1: ret = b5<boolean_and>(cob, x); break;
            case 2: ret = b5<boolean_or>(cob, x); break;
            case 3: { boolean_and<bool> c; b5(cob, x, c); ret = c.result(); c.reset(); second = true; b5(cob, x, c); ret2 = c.result(); break; }
            case 4: { boolean_or<bool> c; b5(cob, x, c); ret = c.result(); c.reset(); second = true; b5(cob, x, c); ret2 = c.result(); break; }
            case 5: b5(cob, x, st); break;
            default: ret = b5(cob, x);
            }
            break;
        case M_OV1: ret = ov(ob, x); break;
        case M_OV2:
            switch (how) {
            case 1: ret = ov<sum>(cob, x, y); break;
            case 2: ret = ov<mean>(cob, x, y); break;
            case 3: { sum<int> c; ov(cob, x, y, c); ret = c.result(); c.reset(); second = true; ov(cob, x, y, c); ret2 = c.result(); break; }
            case 4: { mean<int> c; ov(cob, x, y, c); ret = c.result(); c.reset(); second = true; ov(cob, x, y, c); ret2 = c.result(); break; }
            case 5: ov(cob, x, y, st); break;
            default: ret = ov(cob, x, y);
            }
            break;
        case M_W0: ret = op.a[3] & 1 ? w0(ob, x) : w0_msg::call(ob, x); break;
        case M_W1: ret = op.a[3] & 1 ? w1(cob, x) : w1_msg::call(cob, x); break;
        default: ret = op.a[3] & 1 ? p0(ob, x) : p0_msg::call(ob, x);
        }
    });
    auto& lg = logs[f];
    bool prefix = lg.size() <= sim.log.size() * (second ? 2 : 1);
    for (size_t i = 0; prefix && i < lg.size(); ++i) if (!(lg[i] == sim.log[i % std::max<size_t>(1, sim.log.size())])) prefix = false;
    auto describe = [&](const std::vector<Log>& l) { std::string d; for (auto& e : l) d += " " + std::to_string(e.mix) + "(" + std::to_string(e.x) + ")"; return d; };
    if (!prefix || (ok && lg.size() != sim.log.size() * (second ? 2 : 1)))
        fail("v1-message", "message %s (kind %d) to an object of %s was executed by%s instead of%s", mname[msg], how, ml_str(o.type).c_str(), describe(lg).c_str(), describe(sim.log).c_str());
    if (!no_fault_expected(ok, sim.failed, "a message")) return true;
    swallowed("a message");
    if (!ok) return true;
    int want = 0;
    size_t num = top.empty() ? 1 : top.size();
    int sm = 0;
    for (int r : results) sm += r;
    if (msg == M_K2) {
        if (out != results) fail("v1-message", "message %s: wrong results", mname[msg]);
        if (t.val != x) fail("v1-message", "message %s changed the argument of the caller", mname[msg]);
        return true;
    }
    if (how == 5) {
        if (st.num != num) fail("v1-message", "message %s: %lu results were announced instead of %lu", mname[msg], (unsigned long)st.num, (unsigned long)num);
        if (st.got != results) fail("v1-message", "message %s: wrong results for a combinator", mname[msg]);
        return true;
    }
    if (how == 0) want = results.back();
    else if (msg == M_B5) want = (how & 1) ? std::all_of(results.begin(), results.end(), [](int r) { return r; }) : std::any_of(results.begin(), results.end(), [](int r) { return r; });
    else want = (how & 1) ? sm : sm / int(num);
    if (ret != want || (second && ret2 != want)) fail("v1-message", "message %s (kind %d) to an object of %s gives %d, %d instead of %d", mname[msg], how, ml_str(o.type).c_str(), ret, second ? ret2 : ret, want);
    if (how) PROBE("v1 combinator");
    if (lg.size() > top.size() && !top.empty()) PROBE("v1 next bidder");
    return true;
}

// ---- rules ----
bool v_rule_add(const Op& op) {
    int r = int(op.a[0]), how = int(op.a[1]);
    if (r < 0 || r >= NVR || (conc() && r % W.cfg.nfibers + 1 != rt::cur())) return false;
    auto& x = rules[r];
    VRec h{};
    h.kind = VH_ADD; h.rule = r;
    if (!conc()) { int n = 0; for (auto i : reg) if (i >= 0) ++n; if (n >= 7) return false; }
    v1::mutation_rule_id id = 0;
    if (x.held) { // the same rule again
        h.inv = rt::stamp();
        bool ok = sut([&] { id = v1::add_mutation_rule(x.held); });
        if (how & 4) { SutScope ss; x.held.reset(); }
        h.ok = ok; h.id = ok ? int(id) : -1;
        if (ok && id >= NID) fail("v1-rules", "an id of a rule is %u although there are not so many", id);
        PROBE("v1 rule added again");
        record(h);
        if (!no_fault_expected(ok, false, "the addition of a rule")) return true;
        return true;
    }
    if (x.ptr || x.adding) return false;
    v1::mutation_rule* p = nullptr;
    auto& c = rcfg(r);
    bool made = sut([&] { p = make_rule(r); });
    if (!no_fault_expected(made, false, "the creation of a rule")) { if (x.ptr) fail("v1-rules", "an incomplete rule lives"); return true; }
    (void)c;
    x.adding = true;
    h.inv = rt::stamp();
    bool ok, lent = false;
    if ((how & 3) == 0) ok = sut([&] { id = v1::add_mutation_rule(p); });
    else {
        std::shared_ptr<v1::mutation_rule> sp;
        bool shared = sut([&] { sp.reset(p); });
        if (!shared) { // the pointer is deleted
            x.adding = false;
            if (x.ptr) fail("v1-rules", "rule %d leaks", r);
            return true;
        }
        if ((how & 3) == 1) ok = sut([&] { id = v1::add_mutation_rule(std::move(sp)); });
        else { x.held = sp; lent = true; ok = sut([&] { id = v1::add_mutation_rule(sp); }); }
        { SutScope ss; sp.reset(); }
    }
    x.adding = false;
    h.ok = ok; h.id = ok ? int(id) : -1;
    if (ok && id >= NID) fail("v1-rules", "an id of a rule is %u although there are not so many", id);
    record(h);
    no_fault_expected(ok, false, "the addition of a rule");
    if (!ok && !lent && x.ptr) fail("v1-rules", "rule %d could not be added, but it lives", r);
    return true;
}
bool v_rule_rem(const Op& op) {
    int id = int(op.a[0]);
    VRec h{};
    h.kind = VH_REM; h.id = id;
    h.inv = rt::stamp();
    std::shared_ptr<v1::mutation_rule> sp;
    bool ok = sut([&] { sp = v1::remove_mutation_rule(v1::mutation_rule_id(id)); });
    if (!ok) fail("spurious-failure", "the removal of a rule failed");
    h.ok = true;
    for (int i = 0; i < NVR; ++i) if (sp && rules[i].ptr == sp.get()) h.rule = i;
    if (sp && h.rule < 0) fail("v1-rules", "the removal of rule %d gives a rule which is not alive", id);
    record(h);
    int r = h.rule;
    bool keep = r >= 0 && (op.a[1] & 1) && !rules[r].held && !rules[r].adding && (!conc() || r % W.cfg.nfibers + 1 == rt::cur());
    SutScope ss;
    if (keep) rules[r].held = std::move(sp);
    sp.reset();
    return true;
}
bool v_rule_drop(const Op& op) { // the program gives up its share
    int r = int(op.a[0]);
    if (r < 0 || r >= NVR || (conc() && r % W.cfg.nfibers + 1 != rt::cur()) || !rules[r].held) return false;
    SutScope ss;
    rules[r].held.reset();
    return true;
}

// ---- the plugin ----
void run_init(init_fn* b, init_fn* e) { SutScope ss; for (; b < e; ++b) (*b)(); }

bool v_plug(const Op& op) {
    if (conc() && rt::cur() != plug_fiber) return false;
    if (op.a[0] == 0) {
        if (loaded) return false;
        size_t len = size_t(__stop_plugdata - __start_plugdata);
        static char image[1 << 16];
        if (len > sizeof image) fail("harness", "the plugin is too big");
        if (!nloads++) memcpy(image, __start_plugdata, len);
        else { memcpy(__start_plugdata, image, len); rt::renew(__start_plugdata, len); PROBE("plugin loaded again"); }
        module = 1;
        run_init(__start_v1init_plug, __stop_v1init_plug);
        module = 0;
        loaded = true;
        if (!plug_info || !plug_class) fail("harness", "the plugin was not initialized");
        for (int m = 0; m < NVM; ++m) if (is_plug(m)) {
            auto* i = plug_info(m);
            bool same;
            { SutScope ss; same = i->id != dx::invalid_mixin_id && dom(mdef[m].dom)->get_mixin_info(i->id) == i && dom(mdef[m].dom)->get_mixin_info(std::string_view(mdef[m].name)) == i; }
            if (!same) fail("v1-module", "mixin %d is not registered after its module was loaded", m);
        }
        PROBE("plugin loaded");
        return true;
    }
    if (!loaded) return false;
    for (auto& o : objs) if (o.alive) for (int i = 0; i < ml_n(o.type); ++i) if (is_plug(ml_at(o.type, i))) return false;
    {
        SutScope ss;
        for (size_t i = exits.size(); i--;) {
            if (exits[i].module != 1) continue;
            exits[i].f(exits[i].a);
        }
    }
    exits.erase(std::remove_if(exits.begin(), exits.end(), [](const Exit& e) { return e.module == 1; }), exits.end());
    loaded = false;
    if (plug_info || plug_class) fail("harness", "the plugin was not torn down");
    rt::poison(__start_plugdata, size_t(__stop_plugdata - __start_plugdata)); // the module is gone
    for (int m = 0; m < NVM; ++m) if (is_plug(m)) {
        bool any;
        { SutScope ss; any = dom(mdef[m].dom)->get_mixin_info(std::string_view(mdef[m].name)); }
        if (any) fail("v1-module", "the name of mixin %d is still known after its module was unloaded", m);
    }
    bool feat, tc;
    { SutScope ss; feat = dom(1)->get_feature_info(std::string_view(mname[M_P0])); tc = dom(1)->get_type_class("tc_n2"); }
    if (feat || tc) fail("v1-module", "the name of a %s is still known after its module was unloaded", feat ? "message" : "type class");
    PROBE("plugin unloaded");
    return true;
}

bool v_lookup(const Op& op) {
    int m = int(op.a[0]);
    if (m < 0 || m >= NVM) return false;
    int d = mdef[m].dom;
    const dx::mixin_info *a, *b, *i = nullptr;
    bool there = !is_plug(m) || loaded, exact = !is_plug(m) || mine();
    if (there && exact) i = minfo(m);
    { SutScope ss; a = dom(d)->get_mixin_info(std::string_view(mdef[m].name)); b = dom(!d)->get_mixin_info(std::string_view(mdef[m].name)); }
    if (b) fail("v1-query", "mixin %d is known by name in another domain", m);
    if (exact && a != i) fail("v1-query", "the name of mixin %d gives %s", m, a ? "another info" : "nothing");
    if (i) {
        bool ok;
        std::string nm;
        { SutScope ss; ok = dom(d)->get_mixin_info(i->id) == i; HarnessScope hs; nm = i->name.to_std(); }
        if (!ok || nm != mdef[m].name) fail("v1-query", "wrong description of mixin %d: %s", m, nm.c_str());
        if (m == 4 && i->user_data != 4242) fail("v1-query", "wrong user data of mixin %d", m);
        if (i->dependency != mdef[m].dep || i->force_external != (d == 0 && m != VM_Q)) fail("v1-query", "wrong flags of mixin %d", m);
        auto fs = i->features_span();
        if (fs.size() != mdef[m].use.size()) fail("v1-query", "mixin %d has %lu features", m, (unsigned long)fs.size());
        for (size_t k = 0; k < fs.size(); ++k) {
            bool found = false;
            for (auto& u : mdef[m].use) if (feature(u.msg) == fs[k].info && u.bid == fs[k].bid && u.prio == fs[k].priority) found = true;
            if (!found) fail("v1-query", "mixin %d: feature %lu is not as described", m, (unsigned long)k);
        }
    }
    int k = int(op.a[1]) % NVMSG;
    const dx::feature_info* fi;
    std::string want = mname[k];
    { SutScope ss; fi = dom(k >= M_W0)->get_feature_info(std::string_view(want)); }
    bool there_k = k != M_P0 || loaded, exact_k = k != M_P0 || mine();
    if (exact_k && fi != (there_k ? feature(k) : nullptr)) fail("v1-query", "the name of message %s gives %s", want.c_str(), fi ? "another info" : "nothing");
    const dx::type_class *t0, *t1, *t2;
    { SutScope ss; t0 = dom(0)->get_type_class("tc_ab"); t1 = dom(1)->get_type_class("tc_n0"); t2 = dom(1)->get_type_class("tc_n2"); }
    if (t0 != world_classes[0] || t1 != world_classes[1] || (mine() && t2 != plug_class)) fail("v1-query", "wrong result for the name of a type class");
    return true;
}

// ---- checks between operations ----
void v_check(bool full) {
    int alive = 0;
    for (int s = 0; s < NVO; ++s) if (objs[s].alive) { check_obj(s, full); alive += ml_n(objs[s].type); }
    if (int(insts.size()) != alive) {
        int n = 0;
        for (auto& i : insts) if (!i.second.moved) ++n;
        if (n != alive) fail("not-destroyed", "%d instances of mixins live, but the objects have %d", n, alive);
    }
    // rules
    unsigned regs = 0;
    for (auto x : reg) if (x >= 0) regs |= 1u << x;
    for (int r = 0; r < NVR; ++r) {
        bool want = (regs >> r & 1) || rules[r].held;
        if (!!rules[r].ptr != want) fail("v1-rules", "rule %d %s", r, want ? "was destroyed although it is in use" : "still lives");
    }
    size_t nr = 0, n2r = 0;
    { SutScope ss; nr = dom(0)->num_mutation_rules(); n2r = dom(1)->num_mutation_rules(); }
    if (n2r != (loaded ? 3u : 1u)) fail("v1-module", "domain 1 has %lu rules instead of %d", (unsigned long)n2r, loaded ? 3 : 1);
    if (nr != size_t(__builtin_popcount(regs)) + 1) fail("v1-rules", "the domain has %lu rules instead of %d", (unsigned long)nr, __builtin_popcount(regs) + 1);
    // what is registered
    for (int d = 0; d < 2; ++d) {
        std::vector<const dx::mixin_info*> mi;
        std::vector<const dx::type_class*> tc;
        std::map<const dx::type*, int> cnt;
        std::vector<std::pair<const dx::type*, int>> types;
        std::vector<ML> lists;
        bool bad = false;
        for (auto& o : objs) if (o.alive && o.dom == d) { const dx::type* t; { SutScope ss; t = &o.ptr->get_type(); } ++cnt[t]; }
        sut([&] {
            dx::domain_traverse tr(*dom(d));
            tr.traverse_mixins([&](const dx::mixin_info& i) { HarnessScope hs; mi.push_back(&i); });
            tr.traverse_type_classes([&](const dx::type_class& t) { HarnessScope hs; tc.push_back(&t); });
            tr.traverse_types([&](const dx::type& t) { ML l; if (!v1_list(t, l)) { bad = true; return; } int n = int(t.num_objects()); HarnessScope hs; types.push_back({&t, n}); lists.push_back(l); });
            tr.traverse_type_queries([&](itlib::span<const dx::mixin_info* const> q, const dx::type&) { for (auto* i : q) if (mix_of(i) < 0) bad = true; });
        });
        if (bad) fail("v1-module", "domain %d has a type or a stored request with a mixin which is gone", d);
        size_t want = d ? loaded ? 4 : 2 : loaded ? 10 : 8;
        if (mi.size() != want) fail("v1-module", "domain %d has %lu mixins instead of %lu", d, (unsigned long)mi.size(), (unsigned long)want);
        for (auto* i : mi) if (mix_of(i) < 0 || mdef[mix_of(i)].dom != d) fail("v1-module", "domain %d has a wrong mixin", d);
        if (tc.size() != (d && loaded ? 2u : 1u)) fail("v1-module", "domain %d has %lu type classes", d, (unsigned long)tc.size());
        for (auto& t : types) if (t.second != cnt[t.first]) fail("object-count", "a type of domain %d has %d objects instead of %d", d, t.second, cnt[t.first]);
        std::sort(lists.begin(), lists.end());
        if (std::adjacent_find(lists.begin(), lists.end()) != lists.end()) fail("v1-type", "there are two types with the same mixins");
        uint64_t h = rt::R->state_hash;
        for (auto l : lists) h = rt::mix(h, l);
        rt::R->state_hash = h;
    }
    uint64_t h = rt::R->state_hash;
    for (auto x : reg) h = rt::mix(h, uint64_t(x + 1));
    for (auto& o : objs) if (o.alive) h = rt::mix(h, o.type);
    rt::R->state_hash = rt::mix(h, loaded);
}

bool v_exec(const Op& op) {
    int s = int(op.a[0]);
    switch (op.kind) {
    case V_PLUG: return v_plug(op);
    case V_NEW: {
        if (s < 0 || s >= NVO || !free_for(s)) return false;
        auto& o = objs[s];
        int d = op.a[1] & 1;
        v1::object* p = nullptr;
        bool ok = sut([&] { p = d ? new v1::object(*dom(1)) : new v1::object(); });
        if (!no_fault_expected(ok, false, "the creation of an object")) return true;
        o.alive = true; o.ptr = p; o.dom = d; o.type = 0;
        check_obj(s, true);
        return true;
    }
    case V_DEL: {
        if (s < 0 || s >= NVO || !use(s, true) || objs[s].owner == -1) return false;
        auto& o = objs[s];
        check_obj(s, false);
        uint32_t id[15];
        int n = ml_n(o.type);
        memcpy(id, o.id, sizeof id);
        { SutScope ss; delete o.ptr; }
        forget_v(o);
        for (auto& i : insts) for (int k = 0; k < n; ++k) if (i.second.id == id[k] && !i.second.moved) fail("not-destroyed", "a mixin of a destroyed object lives");
        return true;
    }
    case V_MUTATE: return v_mutate(op);
    case V_COPY: return v_copy(op);
    case V_MOVE: return v_move(op);
    case V_READ: if (s < 0 || s >= NVO || !use(s, false)) return false; check_obj(s, true); return true;
    case V_MSG: return v_msg(op);
    case V_SETVAL: {
        if (s < 0 || s >= NVO || !use(s, true) || !ml_n(objs[s].type) || objs[s].owner == -1) return false;
        auto& o = objs[s];
        int i = int(op.a[1]) % ml_n(o.type), m = ml_at(o.type, i);
        if (!typed(m)) return false;
        int v = int(op.a[2]);
        { SutScope ss; with_typed(m, [&](auto t) { o.ptr->template get<typename decltype(t)::type>()->set_val(v); }); }
        auto* x = inst_of(*o.ptr, m);
        if (!x) fail("mixin-state", "a mixin of object %d does not live", s);
        x->val = v;
        o.val[i] = v;
        check_obj(s, false);
        return true;
    }
    case V_RULE_ADD: return v_rule_add(op);
    case V_RULE_REM: return v_rule_rem(op);
    case V_RULE_DROP: return v_rule_drop(op);
    case V_GET_TYPE: return v_get_type(op);
    case V_LOOKUP: return v_lookup(op);
    case V_GC:
        if (conc()) return false;
        { SutScope ss; dom(int(op.a[0] & 1))->garbage_collect_types(); }
        return true;
    default: return false;
    }
}
bool v_faults(int k) { return k == V_NEW || k == V_MUTATE || k == V_COPY || k == V_MOVE || k == V_MSG || k == V_RULE_ADD || k == V_GET_TYPE; }

void v_op(const Op& op, int opidx, int statidx) {
    if (op.kind == O_NONE) return;
    rt::Fault f = op.fault;
    if (!v_faults(op.kind)) f = rt::Fault();
    cur_op = opidx;
    cur_fault[rt::cur()] = f.kind;
    rt::op_begin(opidx, statidx, f);
    rt::trace(uint64_t(op.kind));
    ++rt::R->executed;
    bool done = v_exec(op);
    rt::op_end();
    call_obj[rt::cur()] = nullptr;
    if (!done) { skip(); return; }
    ++rt::R->kinds[op.kind];
    if (rt::fault_fired()) PROBE("a fault fired");
    if (!conc()) v_check(false);
}
void v_worker(int f) {
    auto& ops = W.plan->work[f];
    int base = int(W.plan->setup.size());
    for (int g = 1; g < f; ++g) base += int(W.plan->work[g].size());
    for (size_t i = 0; i < ops.size(); ++i) v_op(ops[i], int(i), base + int(i));
}
}

// ---- what the modules call ----
namespace v1w {
int construct(int mix, void* self, int val, int how, const void* src) {
    HarnessScope hs;
    if (int k = rt::callback_event()) user_throw(k);
    auto f = insts.find(uintptr_t(self));
    if (f != insts.end() && !f->second.moved) fail("construct-over", "mixin %d is constructed over a living instance of mixin %d", mix, f->second.mix);
    if (how == 0) val = 10 + mix;
    if (how == 2) {
        auto s = insts.find(uintptr_t(src));
        if (s == insts.end() || s->second.mix != mix || s->second.moved) fail("dead-mixin", "a mixin %d is copied from something which does not live", mix);
        val = s->second.val;
    }
    insts[uintptr_t(self)] = VInst{mix, next_id++, val, how, false};
    rt::trace(uint64_t(mix) << 32 | next_id);
    return val;
}
int take(int mix, void* self, void* src) noexcept {
    HarnessScope hs;
    auto s = insts.find(uintptr_t(src));
    if (s == insts.end() || s->second.mix != mix || s->second.moved) fail("dead-mixin", "a mixin %d is moved from something which does not live", mix);
    auto f = insts.find(uintptr_t(self));
    if (f != insts.end() && !f->second.moved) fail("construct-over", "mixin %d is moved over a living instance", mix);
    VInst i = s->second;
    s->second.moved = true;
    insts[uintptr_t(self)] = i;
    rt::trace(i.id);
    return i.val;
}
void assign(int mix, void* self, const void* src) {
    HarnessScope hs;
    if (int k = rt::callback_event()) user_throw(k);
    auto f = insts.find(uintptr_t(self)), s = insts.find(uintptr_t(src));
    if (f == insts.end() || f->second.mix != mix || f->second.moved) fail("dead-mixin", "a mixin %d which does not live is assigned to", mix);
    if (s == insts.end() || s->second.mix != mix || s->second.moved) fail("dead-mixin", "a mixin %d is assigned from something which does not live", mix);
    f->second.val = s->second.val;
}
void destroy(int mix, void* self) noexcept {
    HarnessScope hs;
    auto f = insts.find(uintptr_t(self));
    if (f == insts.end() || f->second.mix != mix) fail("double-destroy", "a mixin %d which does not live is destroyed", mix);
    rt::trace(f->second.id);
    insts.erase(f);
}
int called(int msg, int mix, const void* self, const void* obj, int x) {
    HarnessScope hs;
    auto f = insts.find(uintptr_t(self));
    if (f == insts.end() || f->second.mix != mix || f->second.moved) fail("dead-mixin", "a message reached a mixin %d which does not live", mix);
    if (obj != call_obj[rt::cur()]) fail("object-of", "mixin %d got a message and finds another object", mix);
    logs[rt::cur()].push_back({msg, mix, x});
    if (logs[rt::cur()].size() > 200) fail("v1-message", "message %s does not end", mname[msg]);
    if (int k = rt::callback_event()) user_throw(k);
    return msg_val(msg, mix, x);
}
int next_result(int r, int next) { return join(r, next); }
int defaulted(int msg, const void* obj, int x) {
    HarnessScope hs;
    if (obj != call_obj[rt::cur()]) fail("object-of", "a default implementation got another object");
    if (int k = rt::callback_event()) user_throw(k);
    return def_val(msg, x);
}
}

void run_v1(const Plan& p) {
    active = true;
    exits.reserve(256);
    reg.fill(-1);
    auto& c = p.cfg.v1;
    // the modules of the program start in any order
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    rt::op_begin(99990, -1, rt::Fault());
    for (int k : perm[c.order % 6]) {
        if (k == 0) run_init(__start_v1init_lib, __stop_v1init_lib);
        else if (k == 1) run_init(__start_v1init_msgs, __stop_v1init_msgs);
        else run_init(__start_v1init_world, __stop_v1init_world);
    }
    rt::op_end();
    v_check(true);
    for (size_t i = 0; i < p.setup.size(); ++i) v_op(p.setup[i], int(i), int(i));
    size_t nw = 0;
    if (p.cfg.nfibers) {
        int nf = p.cfg.nfibers;
        plug_fiber = c.plug_fiber % nf + 1;
        for (int i = 0; i < NVO; ++i) {
            auto& o = objs[i];
            bool plug = false;
            for (int k = 0; k < ml_n(o.type); ++k) if (is_plug(ml_at(o.type, k))) plug = true;
            o.owner = i >= NVO - NSHARED ? -1 : plug ? plug_fiber : i % nf + 1;
            if (o.owner == -1 && plug) { Op d; d.kind = V_DEL; d.a[0] = i; o.owner = 0; v_op(d, 99000 + i, -1); o.owner = -1; }
        }
        v_check(true);
        rt::run_workers(nf, v_worker);
        for (auto& w : p.work) nw += w.size();
        v1_lin();
        for (auto& o : objs) o.owner = 0;
        v_check(true);
    }
    for (size_t i = 0; i < p.tail.size(); ++i) v_op(p.tail[i], 100000 + int(i), int(p.setup.size() + nw + i));
    v_check(true);
    // the program ends
    rt::op_begin(200000, -1, rt::Fault());
    for (int i = 0; i < NVO; ++i) if (objs[i].alive) { SutScope ss; delete objs[i].ptr; objs[i].alive = false; }
    if (!insts.empty()) fail("not-destroyed", "%lu instances of mixins were not destroyed with their objects", (unsigned long)insts.size());
    for (auto& r : rules) if (r.held && (c.order & 8)) { SutScope ss; r.held.reset(); }
    for (size_t i = exits.size(); i--;) { SutScope ss; exits[i].f(exits[i].a); }
    for (auto& r : rules) if (r.held) { SutScope ss; r.held.reset(); }
    for (int r = 0; r < NVR; ++r) if (rules[r].ptr) fail("v1-rules", "rule %d was never destroyed", r);
    exits.clear();
    rt::check_leaks(0xff & ~(1u << P_WORLD));
    rt::op_end();
}
