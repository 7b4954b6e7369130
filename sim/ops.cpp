// Executor of operations: the domain, types and type mutations.
#include "exec.h"
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/mutate_to.hpp>
#include <algorithm>
#include <set>
#include <ostream>
#include <streambuf>
#include <string.h>
#include <unistd.h>

using rt::fail;
using rt::HarnessScope;
using rt::SutScope;
using namespace ex;

World W;
const char* const op_names[O_COUNT] = {"none", "register-mixin", "unregister-mixin", "register-feature", "unregister-feature", "register-class", "unregister-class",
    "lookup", "add-rule", "remove-rule", "get-type", "collect", "count",
    "tm-new", "tm-edit", "tm-get", "tm-drop", "tm-query",
    "obj-new", "obj-del", "obj-mutate", "obj-mutate-to", "obj-clear",
    "obj-copy", "obj-copy-from", "obj-copy-matching", "obj-move-new", "obj-move-assign", "obj-move-matching",
    "obj-seal", "obj-set", "obj-compare", "obj-message", "obj-read",
    "md-build", "md-register", "md-unregister",
    "traverse", "dump", "type-check", "dom-misc",
    "v1-plugin", "v1-new", "v1-del", "v1-mutate", "v1-copy", "v1-move", "v1-read", "v1-message", "v1-set", "v1-rule-add", "v1-rule-remove", "v1-rule-drop", "v1-get-type", "v1-lookup", "v1-collect"};

void list_overflow() { // ends the run quietly
    HarnessScope hs;
    PROBE("models do not cover the list");
    rt::end_run();
    rt::R->done = 1;
    DSIM_EXIT(0);
}

namespace ex {
unsigned regm, regf, regt;
int rulecnt[NRALL];
unsigned start_feats;
unsigned md_frozen; // built mixins which the history of the concurrent phase refers to
std::vector<ML> pinned;
int cur_ops[rt::MAXF], cur_fault[rt::MAXF];

void swallowed(const char* what) {
    if (rt::fault_fired() && cur_fault[rt::cur()] >= rt::Fault::cb_error) fail("swallowed-error", "%s succeeded although a user function which it called failed", what);
}

void skip() { ++rt::R->skipped; --rt::R->executed; }

bool sut_in_flight(const std::function<void()>& f) {
    bool ok = false;
    struct D {
        const std::function<void()>& f;
        bool& ok;
        ~D() noexcept(false) { ok = sut([&] { f(); }); }
    };
    try {
        D d{f, ok};
        throw user_error();
    }
    catch (user_error&) {}
    PROBE("mutation while another exception is in flight");
    return ok;
}

bool mix_ok(int m) {
    if (!conc()) return true;
    int o = W.cfg.mix[m].owner;
    return o == -1 || o == rt::cur();
}
bool list_ok(ML l) { for (int i = 0; i < ml_n(l); ++i) if (!mix_ok(ml_at(l, i))) return false; return true; }
bool name_unique(int m) {
    if (W.mname[m].empty()) return false;
    for (int i = 0; i < NM; ++i) if (i != m && W.mname[i] == W.mname[m]) return false;
    return true;
}
int first_named(ML l, const std::string& n) { for (int i = 0; i < ml_n(l); ++i) if (W.mname[ml_at(l, i)] == n) return i; return -1; }

static unsigned used_feats; // frozen for the concurrent phase
static bool feat_used(int f) {
    if (conc()) return used_feats >> f & 1;
    for (int m = 0; m < NM; ++m) { auto c = mcfg(m); for (int i = 0; i < c.nfeat; ++i) if (c.feat[i].f == f) return true; }
    return false;
}
bool feat_ok(int f) {
    if (!conc()) return true;
    return (start_feats >> f & 1) && (f < 4 || feat_used(f));
}
bool has_default(int f) { return f == 3 || f == 5; }

ML read_type(const dx::type& t) {
    ML l = 0;
    SutScope ss;
    size_t n = t.mixins.size();
    if (n > 15) { HarnessScope hs; fail("type-changed", "a type has %lu mixins", (unsigned long)n); }
    for (size_t i = 0; i < n; ++i) {
        auto* p = t.mixins[i];
        HarnessScope hs;
        int m = mix_index(p);
        if (m < 0) fail("type-changed", "a type has an unknown mixin");
        l = ml_add(l, m);
    }
    return l;
}

int row_of(const dx::type& t, ML l) {
    if (!ml_n(l)) {
        if (&t != &W.d0->get_empty_type()) fail("type-changed", "a type without mixins is not the empty type of the domain");
        return -2;
    }
    return type_row(&t, l);
}

static bool rule_touch_ok(const RuleCfg& c) { // with concurrent fibers rules only touch stable mixins
    if (!W.cfg.nfibers) return true;
    return W.cfg.mix[c.a].owner < 0 && W.cfg.mix[c.b].owner < 0;
}
static bool twins(const RuleCfg& a, const RuleCfg& b) { return a.kind == b.kind && a.a == b.a && a.b == b.b && a.byname == b.byname; }
// the order of different rules with the same priority and name is not specified
static bool rule_collides(int r) {
    auto& x = W.rules[r];
    for (int i = 0; i < NRALL; ++i) {
        if (i == r || !W.rules[i].ptr) continue;
        if (!conc() && !rulecnt[i]) continue;
        if (W.rules[i].cfg.prio == x.cfg.prio && W.rules[i].name == x.name) { if (!twins(W.rules[i].cfg, x.cfg)) return true; PROBE("different rules with the same priority and name"); }
    }
    return false;
}
static bool byname_in_force(int m) { // -1: any
    for (int i = 0; i < NR; ++i) {
        auto& c = W.rules[i].cfg;
        if (!c.byname || (!rulecnt[i] && !conc())) continue;
        if (m < 0 || c.a == m || c.b == m || W.mname[c.a] == W.mname[m] || W.mname[c.b] == W.mname[m]) return true;
    }
    return false;
}

bool usable(int slot, bool write) {
    if (slot < 0 || slot >= NOBJ) return false;
    auto& o = W.obj[slot];
    if (!o.alive) return false;
    if (!conc()) return true;
    return o.owner == rt::cur() || (o.owner == -1 && !write);
}

// may the request be made at all
bool request_allowed(ML req) {
    if (!list_ok(req)) return false;
    for (int i = 0; i < ml_n(req); ++i) {
        int m = ml_at(req, i);
        if (mcfg(m).dep && !(regm >> m & 1)) return false;
        if (conc() && (m == M_FOREIGN || m == M_NEVER) && mcfg(m).dep) return false;
    }
    return true;
}
bool eval_now(ML req, ML& out) { return !eval_rules(ds(), req, out); } // only where rules are stable
bool pinned_type(ML l) {
    if (!ml_n(l)) return true;
    if (std::find(pinned.begin(), pinned.end(), l) != pinned.end()) return true;
    if (conc()) for (auto& o : W.obj) if (o.alive && o.owner == rt::cur() && o.type == l) return true; // kept alive by an object of this fiber
    return false;
}

// when the objects of the fibers had which types
namespace {
struct Live { int slot, fiber, row; uint64_t born_begin, born_end, dead_begin, dead_end; };
std::vector<Live> lives;
uint64_t live_time;
uint64_t live_busy[rt::MAXF];
constexpr uint64_t LIVES = ~uint64_t(0);
int slot_row(int i) {
    auto& o = W.obj[i];
    if (!o.alive || !ml_n(o.type)) return -1;
    return find_row(&o.ptr->get_type());
}
}
void live_start() {
    lives.clear();
    live_time = 1;
    for (auto& b : live_busy) b = 0;
    for (int i = 0; i < NOBJ; ++i) {
        if (W.obj[i].owner == -1) continue;
        int row = slot_row(i);
        if (row >= 0) lives.push_back({i, W.obj[i].owner, row, 0, 0, LIVES, LIVES});
    }
}
void live_op(bool begin) {
    int f = rt::cur();
    if (begin) { live_busy[f] = ++live_time; return; }
    uint64_t b = live_busy[f], e = ++live_time;
    live_busy[f] = 0;
    for (int i = 0; i < NOBJ; ++i) {
        if (W.obj[i].owner != f) continue;
        int row = slot_row(i), was = -1;
        Live* l = nullptr;
        for (auto& x : lives) if (x.slot == i && x.dead_end == LIVES) { l = &x; was = x.row; }
        if (row == was) continue;
        if (l) { l->dead_begin = b; l->dead_end = e; }
        if (row >= 0) lives.push_back({i, f, row, b, e, LIVES, LIVES});
    }
}
static void live_rows(uint64_t t0, std::vector<int>& keep, std::vector<int>& maybe) {
    auto has = [](std::vector<int>& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); };
    for (auto& x : lives) if (x.born_end < t0 && x.dead_end == LIVES && !live_busy[x.fiber] && !has(keep, x.row)) keep.push_back(x.row);
    for (auto& x : lives) if (x.dead_end > t0 && !has(keep, x.row) && !has(maybe, x.row)) maybe.push_back(x.row);
}

std::vector<Prov> providers(ML l, int f) {
    std::vector<Prov> r;
    for (int i = 0; i < ml_n(l); ++i) {
        auto c = mcfg(ml_at(l, i));
        for (int k = 0; k < c.nfeat; ++k) if (c.feat[k].f == f) r.push_back({i, c.feat[k].bid, c.feat[k].prio});
    }
    std::sort(r.begin(), r.end(), [](const Prov& a, const Prov& b) {
        if (a.bid != b.bid) return a.bid > b.bid;
        if (a.prio != b.prio) return a.prio < b.prio;
        return a.idx > b.idx;
    });
    return r;
}
bool tc_model(int t, ML l) {
    auto& c = W.cfg.tc[t];
    if (c.kind == 0) return ml_has(l, c.a);
    if (c.kind == 1) return ml_n(l) >= c.a % 4;
    return !ml_has(l, c.a);
}
int type_cmp_model(ML a, ML b) {
    for (int i = 0;; ++i) {
        if (i == ml_n(a)) return i == ml_n(b) ? 0 : -1;
        if (i == ml_n(b)) return 1;
        int x = ml_at(a, i), y = ml_at(b, i);
        if (x != y) return canon_less(ds(), x, y) ? -1 : 1;
    }
}

bool no_fault_expected(bool ok, bool must_fail, const char* what) {
    bool f = rt::fault_fired();
    if (ok && must_fail) fail("missed-failure", "%s succeeded, but it had to fail", what);
    if (!ok && !must_fail && !f) fail("spurious-failure", "%s failed for no reason", what);
    return ok;
}

// ---- types ----
#define TQ(cond, ...) do { if (!(cond)) { HarnessScope _h; fail("type-query", __VA_ARGS__); } } while (0)

void check_type(const dx::type& t, ML l, int full) {
    ML x = read_type(t);
    TQ(x == l, "a type has the mixins %s instead of %s", ml_str(x).c_str(), ml_str(l).c_str());
    auto h = static_cast<dnmx_type_handle>(&t);
    int n = ml_n(l);
    bool di = true, ci = true, ca = true, eq = true, cm = true;
    for (int i = 0; i < n; ++i) {
        auto c = mcfg(ml_at(l, i));
        if (!(c.fn & FN_INIT)) di = false;
        if (!(c.fn & FN_COPY)) ci = false;
        if (!(c.fn & FN_CASGN)) ca = false;
        if (!(c.fn & (FN_EQ | FN_CMP))) eq = false;
        if (!(c.fn & FN_CMP)) cm = false;
    }
    {
        SutScope ss;
        TQ(int(t.num_mixins()) == n && int(dnmx_type_num_mixins(h)) == n, "a type tells the wrong number of mixins");
        TQ(&t.dom == W.d0, "a type tells the wrong domain");
        TQ(t.default_constructible() == di && dnmx_type_is_default_constructible(h) == di, "wrong default_constructible");
        TQ(t.copy_constructible() == ci && dnmx_type_is_copy_constructible(h) == ci, "wrong copy_constructible");
        TQ(t.copy_assignable() == ca && dnmx_type_is_copy_assignable(h) == ca, "wrong copy_assignable");
        TQ(t.copyable() == (ci && ca) && dnmx_type_is_copyable(h) == (ci && ca), "wrong copyable");
        TQ(t.equality_comparable() == eq && dnmx_type_is_equality_comparable(h) == eq, "wrong equality_comparable");
        TQ(t.comparable() == cm && dnmx_type_is_comparable(h) == cm, "wrong comparable");
    }
    for (int m : SWEEP(NM)) {
        if (m == M_FOREIGN || !mix_ok(m)) continue;
        int i = ml_find(l, m);
        auto* info = W.mix[m];
        std::string_view name = W.mname[m];
        int fi = first_named(l, W.mname[m]);
        SutScope ss;
        TQ(t.has(*info) == (i >= 0) && t.lacks(*info) == (i < 0) && t.has(info->id) == (i >= 0) && t.lacks(info->id) == (i < 0), "a type with %s tells wrongly whether it has mixin %d", ml_str(l).c_str(), m);
        TQ(dnmx_type_has(h, info) == (i >= 0), "dnmx_type_has is wrong about mixin %d", m);
        unsigned want = i < 0 ? unsigned(dx::invalid_mixin_index) : unsigned(i);
        TQ(unsigned(t.index_of(info->id)) == want && unsigned(dnmx_type_index_of(h, info)) == want, "a type with %s tells the index %u for mixin %d", ml_str(l).c_str(), unsigned(t.index_of(info->id)), m);
        if (!full) continue;
        unsigned wn = fi < 0 ? unsigned(dx::invalid_mixin_index) : unsigned(fi);
        TQ(unsigned(t.index_of(name)) == wn && unsigned(dnmx_type_index_of_name(h, dnmx_sv::from_std(name))) == wn, "a type tells the wrong index for the name of mixin %d", m);
        TQ(t.has(name) == (fi >= 0) && t.lacks(name) == (fi < 0) && dnmx_type_has_by_name(h, dnmx_sv::from_std(name)) == (fi >= 0), "a type tells wrongly whether it has a mixin named as mixin %d", m);
        HarnessScope hs;
        if (typed_type_has(t, m) != (i >= 0)) fail("type-query", "type::has<> is wrong about mixin %d", m);
    }
    if (full) {
        for (int f : SWEEP(NF)) {
            if (!feat_ok(f)) continue;
            auto pr = providers(l, f);
            bool strong = !pr.empty();
            bool any = strong || has_default(f);
            auto* info = W.feat[f];
            std::string_view name = W.fname[f];
            bool byname = strong; // another one with the same name may be implemented
            for (int g = 0; g < NF; ++g) if (W.fname[g] == W.fname[f] && !providers(l, g).empty()) byname = true;
            {
                SutScope ss;
                TQ(t.implements_strong(*info) == strong && t.implements_strong(info->id) == strong && dnmx_type_implements_strong(h, info) == strong, "a type with %s tells wrongly whether it implements feature %d", ml_str(l).c_str(), f);
                TQ(t.implements(*info) == any && dnmx_type_implements(h, info) == any, "a type with %s tells wrongly whether it implements feature %d weakly", ml_str(l).c_str(), f);
                TQ(t.implements_strong(name) == byname && dnmx_type_implements_strong_by_name(h, dnmx_sv::from_std(name)) == byname, "a type with %s tells wrongly whether it implements a feature named as feature %d", ml_str(l).c_str(), f);
            }
            {
                // the table entry, as C code uses it
                SutScope ss;
                dnmx_ftable_entry e = dnmx_ftable_at(h, info->id);
                TQ(size_t(e.end - e.begin) == pr.size() && bool(e.begin) == strong, "a type with %s has a table entry with %ld instead of %lu providers of feature %d", ml_str(l).c_str(), long(e.end - e.begin), (unsigned long)pr.size(), f);
                if (strong) {
                    size_t top = 0;
                    while (top + 1 < pr.size() && pr[top + 1].bid == pr[0].bid) ++top;
                    TQ(e.top_bid_back == e.begin + top, "a type with %s has a table entry with the wrong last top bidder of feature %d", ml_str(l).c_str(), f);
                    for (size_t k = 0; k < pr.size(); ++k) {
                        auto& y = e.begin[k];
                        TQ(int(y.mixin_index) == pr[k].idx && y.data->info == info && y.data->bid == pr[k].bid && y.payload == y.data->payload, "a type with %s has a wrong provider %lu of feature %d", ml_str(l).c_str(), (unsigned long)k, f);
                    }
                }
            }
            if (f < 4) {
                if (typed_implements(t, f, true) != strong || typed_implements(t, f, false) != any) fail("type-query", "the typed implements is wrong for message %d and a type with %s", f, ml_str(l).c_str());
            }
            for (int i = 0; i < n; ++i) {
                int at = -1;
                for (size_t k = 0; k < pr.size(); ++k) if (pr[k].idx == i) at = int(k);
                int next = at >= 0 && at + 1 < int(pr.size()) ? at + 1 : -1;
                int nset = -1, nend = -1;
                if (at >= 0) {
                    size_t k = size_t(at);
                    while (k < pr.size() && pr[k].bid == pr[size_t(at)].bid) ++k;
                    if (k < pr.size()) { nset = int(k); nend = nset; while (nend < int(pr.size()) && pr[size_t(nend)].bid == pr[size_t(nset)].bid) ++nend; }
                }
                SutScope ss;
                auto* p = t.find_next_implementer(*info, *W.mix[ml_at(l, i)]);
                TQ(p ? next >= 0 && int(p->mixin_index) == pr[size_t(next)].idx : next < 0, "a type with %s finds the wrong next implementer of feature %d after mixin %d", ml_str(l).c_str(), f, ml_at(l, i));
                auto sp = t.find_next_bidder_set(*info, *W.mix[ml_at(l, i)]);
                TQ(int(sp.size()) == nend - nset, "a type with %s finds a next bidder set of size %lu of feature %d after mixin %d", ml_str(l).c_str(), (unsigned long)sp.size(), f, ml_at(l, i));
                for (size_t k = 0; k < sp.size(); ++k) TQ(int(sp[k].mixin_index) == pr[size_t(nset) + k].idx, "a type with %s finds the wrong next bidder set of feature %d after mixin %d", ml_str(l).c_str(), f, ml_at(l, i));
            }
        }
        for (int c : SWEEP(NTC)) {
            if (W.cfg.tc[c].nofunc) continue;
            bool w = tc_model(c, l);
            SutScope ss;
            TQ(t.is_of(*W.tc[c]) == w && dnmx_type_is_of(h, W.tc[c]) == w, "a type with %s tells wrongly whether it is of type class %d", ml_str(l).c_str(), c);
        }
    }
}

// ---- requests ----
const dx::type* request(ML req, int how, ML& list) {
    std::vector<const dx::mixin_info*> v;
    for (int i = 0; i < ml_n(req); ++i) v.push_back(W.mix[ml_at(req, i)]);
    const dx::type* t = nullptr;
    ML ev = 0;
    bool nodref = false;
    if (gcc()) {
        if (!eval_now(req, ev)) ev = 0;
        nodref = !pinned_type(ev);
    }
    Call c(RC_GET_TYPE);
    c->req = req;
    bool ok;
    switch (how & 3) {
    case 0: ok = sut([&] { t = &W.d0->get_type({v.data(), v.size()}); }); break;
    case 1:
        ok = sut([&] {
            dx::type_mutation m(*W.d0, pool_alloc(P_OBJ3));
            m.mixins.assign(v.data(), v.data() + v.size());
            t = &W.d0->get_type(std::move(m));
        });
        break;
    case 2: ok = csut([&] { t = dx::type::from_c_handle(dnmx_get_type_from_infos(W.d0->to_c_hanlde(), v.data(), uint32_t(v.size()))); return t != nullptr; }); break;
    default: {
        ok = csut([&] {
            auto h = dnmx_create_type_mutation_empty(W.d0->to_c_hanlde());
            if (!h) return false;
            if (!dnmx_type_mutation_set_mixins(h, v.data(), dnmx_mixin_index_t(v.size()))) { dnmx_destroy_unused_type_mutation(h); return false; }
            t = dx::type::from_c_handle(dnmx_get_type(W.d0->to_c_hanlde(), &h));
            if (h) { HarnessScope hs; fail("c-interface", "dnmx_get_type did not consume the type mutation"); }
            return t != nullptr;
        });
    }
    }
    c.ret(ok);
    if (ok) {
        list = nodref ? ev : read_type(*t);
        c->list = list;
        c->type = row_of(*t, list);
    }
    c.fin();
    return ok ? t : nullptr;
}
} // namespace ex

// ---- snapshots ----
static bool take_snapshot(Snapshot& s) {
    std::vector<ML> types2;
    auto tick = [] { if (int k = rt::callback_event()) user_throw(k); }; // the functions given to a traversal may throw
    bool ok = sut([&] {
        dx::domain_traverse t(*W.d0);
        auto mixins = [&](bool second) {
            size_t n = 0;
            t.traverse_mixins([&](const dx::mixin_info& m) {
                uint32_t id = m.id.i;
                HarnessScope hs;
                tick();
                if (second) { ++n; return; }
                int i = mix_index(&m);
                if (i < 0) fail("traverse", "a traversal shows an unknown mixin");
                s.mix.push_back({int(id), i});
            });
            HarnessScope hs;
            if (second && n != s.mix.size()) fail("traverse", "a second look at the mixins in one traversal shows %lu of them instead of %lu", (unsigned long)n, (unsigned long)s.mix.size());
        };
        mixins(false);
        t.traverse_features([&](const dx::feature_info& f) {
            uint32_t id = f.id.i;
            HarnessScope hs;
            tick();
            int i = feat_index(&f);
            if (i < 0) fail("traverse", "a traversal shows an unknown feature");
            s.feat.push_back({int(id), i});
        });
        t.traverse_type_classes([&](const dx::type_class& c) {
            HarnessScope hs;
            int i = tc_index(&c);
            if (i < 0) fail("traverse", "a traversal shows an unknown type class");
            s.tcs.push_back(i);
        });
        t.traverse_mutation_rules([&](const dx::mutation_rule_info& r, uint32_t n) {
            HarnessScope hs;
            tick();
            int i = rule_index(&r);
            if (i < 0) {
                if (std::string(r.name.to_std()) != "canonicalize types" || !W.cfg.canon) fail("traverse", "a traversal shows an unknown rule");
                i = -2;
            }
            s.rules.push_back({i, int(n)});
        });
        t.traverse_types([&](const dx::type& ty) {
            HarnessScope hs;
            tick();
            ML l = read_type(ty);
            s.types.push_back({l, type_row(&ty, l)});
        });
        t.traverse_type_queries([&](itlib::span<const dx::mixin_info* const> q, const dx::type& ty) {
            ML l = 0;
            for (size_t i = 0; i < q.size(); ++i) {
                auto* p = q[i];
                HarnessScope hs;
                int m = mix_index(p);
                if (m < 0) fail("traverse", "a stored request has an unknown mixin");
                l = ml_add(l, m);
            }
            HarnessScope hs;
            ML tl = read_type(ty);
            int row = row_of(ty, tl);
            if (row >= 0) {
                bool f = false;
                for (auto& x : s.types) if (x.second == row) f = true;
                if (!f) fail("traverse", "the stored request %s leads to a type %s which is not among the types", ml_str(l).c_str(), ml_str(tl).c_str());
            }
            s.queries.push_back({l, row});
        });
        mixins(true);
    });
    if (!no_fault_expected(ok, false, "a traversal")) { PROBE("traversal interrupted"); return false; }
    for (size_t i = 1; i < s.rules.size(); ++i) {
        int a = s.rules[i - 1].first, b = s.rules[i].first;
        if (a == -2 || b == -2) continue;
        auto &x = W.rules[a], &y = W.rules[b];
        if (std::make_pair(x.cfg.prio, x.name) > std::make_pair(y.cfg.prio, y.name)) fail("traverse", "the rules of a domain are not in order");
    }
    return true;
}

static void snapshot_rec() {
    Snapshot* s = new Snapshot();
    Call c(RC_SNAPSHOT);
    bool ok = take_snapshot(*s);
    if (ok && !conc()) {
        size_t n = 0;
        sut([&] { n = W.d0->num_type_queries(); });
        if (n != s->queries.size()) fail("traverse", "a domain tells %lu stored requests, a traversal shows %lu", (unsigned long)n, (unsigned long)s->queries.size());
    }
    c->snap = ok ? s : nullptr;
    c.ret(ok);
    c.fin();
    if (!ok || !c.c) delete s;
}

// a dump as a snapshot
namespace {
struct StrBuf : std::streambuf {
    std::string s;
    static void tick() { if (int k = rt::callback_event()) user_throw(k); } // a stream which fails
    int overflow(int ch) override { HarnessScope hs; tick(); if (ch >= 0) s.push_back(char(ch)); return ch; }
    std::streamsize xsputn(const char* p, std::streamsize n) override {
        HarnessScope hs;
        tick();
        if (rt::in_arena(p)) rt::access(p, size_t(n), false);
        s.append(p, size_t(n));
        return n;
    }
};
const char* cut(const std::string& l, size_t& p, const char* before, const char* after, std::string& out) {
    size_t a = l.find(before, p);
    if (a == std::string::npos) return nullptr;
    a += strlen(before);
    size_t b = l.find(after, a);
    if (b == std::string::npos) return nullptr;
    out = l.substr(a, b - a);
    p = b;
    return l.c_str() + b;
}
bool names_list(const std::string& l, size_t& p, ML& out) { // {'a', 'b'}
    out = 0;
    size_t a = l.find('{', p);
    if (a == std::string::npos) return false;
    size_t i = a + 1;
    while (i < l.size() && l[i] != '}') {
        if (l[i] != '\'') { ++i; continue; }
        size_t e = l.find('\'', i + 1);
        if (e == std::string::npos) return false;
        std::string n = l.substr(i + 1, e - i - 1);
        int m = -1;
        for (int k = 0; k < NM; ++k) if (W.mname[k] == n) m = k;
        if (m < 0) return false;
        out = ml_add(out, m);
        i = e + 1;
    }
    p = i + 1;
    return true;
}

// the lines below the first one of a dumped mixin or type
struct DumpItem {
    int mix = -1;        // a mixin, or
    ML type = 0;         // a type
    int row = -1;
    int mode = 0, want_q = 0, want_f = 0;
    std::vector<ML> queries;
    std::vector<std::string> tcs;
    std::vector<std::string> feats;
    std::vector<std::vector<std::string>> provs;
    bool has_q = false, has_t = false, has_f = false;
    std::set<std::string> keys;
};
const char* const mix_keys[] = {"size", "alignment", "obj_buf_size", "obj_buf_align", "init", "copy_init", "move_init", "copy_asgn", "move_asgn", "destroy", "equals", "compare", "allocator", "class", "type_info_class", "user_data", "order_priority", "force_external"};
const char* const type_keys[] = {"size", "obj buf size", "obj buf align", "num obj", "default_constructible", "copy_constructible", "copy_assignable", "equality_comparable", "comparable", "features"};
std::string quoted(const std::string& l) { size_t p = 0; std::string n; return cut(l, p, "'", "'", n) ? n : std::string("?"); }
bool dump_flag(const std::string& v) { return v == "true" || v == "1"; }
void dump_detail(DumpItem& it, const std::string& l) {
    size_t ind = l.find_first_not_of(' ');
    if (ind == std::string::npos) return;
    std::string b = l.substr(ind);
    auto ends = [&](const char* s) { size_t n = strlen(s); return b.size() >= n && b.compare(b.size() - n, n, s) == 0; };
    if (ind == 2) {
        it.mode = 0;
        if (ends("matching queries:")) { it.mode = 1; it.has_q = true; it.want_q = atoi(b.c_str()); return; }
        if (ends("matching type classes:")) { it.mode = 2; it.has_t = true; return; }
        if (ends(" features:")) { it.mode = 3; it.has_f = true; it.want_f = atoi(b.c_str()); return; }
        size_t c = b.find(": ");
        if (c == std::string::npos) return;
        std::string key = b.substr(0, c), v = b.substr(c + 2);
        long n = atol(v.c_str());
        auto num = [&](const char* k, long w) { if (key == k && n != w) fail("dump", "a dump tells %s %s instead of %ld", k, v.c_str(), w); };
        auto flag = [&](const char* k, bool w) { if (key == k && dump_flag(v) != w) fail("dump", "a dump tells %s %s", k, v.c_str()); };
        auto ptr = [&](const char* k, auto* w) { if (key == k && (w ? strtoull(v.c_str(), nullptr, 16) != reinterpret_cast<uintptr_t>(w) : v.compare(0, 4, "none") != 0)) fail("dump", "a dump tells the wrong %s of a mixin: %s", k, v.c_str()); };
        it.keys.insert(key);
        if (it.mix >= 0 && it.mix < MD0) {
            auto& m = *W.mix[it.mix];
            num("size", long(m.size)); num("alignment", long(m.alignment)); num("user_data", long(m.user_data)); num("order_priority", m.order_priority);
            num("obj_buf_size", long(m.obj_buf_size)); num("obj_buf_align", long(m.obj_buf_alignment_and_mixin_offset));
            flag("force_external", m.force_external);
            ptr("init", m.init); ptr("copy_init", m.copy_init); ptr("move_init", m.move_init); ptr("copy_asgn", m.copy_asgn); ptr("move_asgn", m.move_asgn);
            ptr("destroy", m.destroy); ptr("equals", m.equals); ptr("compare", m.compare); ptr("allocator", m.allocator);
        }
        else if (it.mix < 0) {
            bool di = true, ci = true, ca = true, eq = true, cm = true;
            for (int i = 0; i < ml_n(it.type); ++i) {
                auto* m = W.mix[ml_at(it.type, i)];
                di = di && m->init; ci = ci && m->copy_init; ca = ca && m->copy_asgn; eq = eq && (m->equals || m->compare); cm = cm && m->compare;
            }
            flag("default_constructible", di); flag("copy_constructible", ci); flag("copy_assignable", ca); flag("equality_comparable", eq); flag("comparable", cm);
            if (!conc() && ml_n(it.type)) {
                long objs = 0;
                for (auto& o : W.obj) if (o.alive && o.type == it.type) ++objs;
                num("num obj", objs);
            }
            if (key == "features") {
                int w = 0;
                for (int f = 0; f < NF; ++f) w += !providers(it.type, f).empty();
                if (n != w) fail("dump", "a dump tells %ld features of a type instead of %d", n, w);
            }
        }
        return;
    }
    if (it.mode == 1) { ML q; size_t p = 0; if (!names_list(b, p, q)) fail("dump", "a dump has an unknown request: %s", b.c_str()); it.queries.push_back(q); }
    else if (it.mode == 2) it.tcs.push_back(b);
    else if (it.mode == 3) {
        if (ind == 4) { it.feats.push_back(b); it.provs.emplace_back(); }
        else if (!it.provs.empty()) it.provs.back().push_back(b);
    }
}
// queries: of the whole dump, or null
void dump_done(DumpItem& it, unsigned flags, const Snapshot* s) {
    for (auto* k : mix_keys) if (it.mix >= 0 && bool(it.keys.count(k)) != bool(flags & 0x100)) fail("dump", "the dump of a mixin %s %s", flags & 0x100 ? "lacks" : "has an unwanted", k);
    for (auto* k : type_keys) if (it.mix < 0 && bool(it.keys.count(k)) != bool(flags & 0x1000)) fail("dump", "the dump of a type %s %s", flags & 0x1000 ? "lacks" : "has an unwanted", k);
    if (it.mix >= 0) {
        if ((flags & 0x200) && !it.has_f) fail("dump", "a dump does not show the features of a mixin");
        if (it.has_f && it.mix < MD0) {
            auto c = mcfg(it.mix);
            if (it.want_f != c.nfeat || int(it.feats.size()) != c.nfeat) fail("dump", "a dump shows the wrong features of mixin %d", it.mix);
            for (int i = 0; i < c.nfeat; ++i) {
                auto& l = it.feats[size_t(i)];
                std::string tail = " " + std::to_string(c.feat[i].bid) + "_bid " + std::to_string(c.feat[i].prio) + "_prio";
                if (quoted(l) != W.fname[c.feat[i].f] || l.find(tail) == std::string::npos) fail("dump", "a dump shows the wrong features of mixin %d: %s", it.mix, l.c_str());
            }
        }
        return;
    }
    if (((flags & 0x2000) && !it.has_f) || ((flags & 0x8000) && !it.has_t) || ((flags & 0x10000) && !it.has_q)) fail("dump", "a dump lacks details of a type");
    if (it.has_f) {
        std::map<std::string, int> fs;
        int w = 0;
        for (int f = 0; f < NF; ++f) if (!providers(it.type, f).empty()) { fs[W.fname[f]] = f; ++w; }
        if (it.want_f != w || int(it.feats.size()) != w) fail("dump", "a dump shows %lu features of a type %s instead of %d", (unsigned long)it.feats.size(), ml_str(it.type).c_str(), w);
        for (size_t i = 0; i < it.feats.size(); ++i) {
            auto x = fs.find(quoted(it.feats[i]));
            if (x == fs.end()) fail("dump", "a dump shows a wrong feature of a type: %s", it.feats[i].c_str());
            auto pr = providers(it.type, x->second);
            size_t top = 0;
            while (top < pr.size() && pr[top].bid == pr[0].bid) ++top;
            std::string tail = std::to_string(top) + "/" + std::to_string(pr.size());
            if (it.feats[i].find(tail) == std::string::npos) fail("dump", "a dump shows wrong counts of a feature of a type: %s instead of %s", it.feats[i].c_str(), tail.c_str());
            if (!(flags & 0x4000)) continue;
            if (it.provs[i].size() != pr.size()) fail("dump", "a dump shows %lu providers instead of %lu", (unsigned long)it.provs[i].size(), (unsigned long)pr.size());
            for (size_t k = 0; k < pr.size(); ++k)
                if (quoted(it.provs[i][k]) != W.mname[ml_at(it.type, pr[k].idx)] || it.provs[i][k].find(" " + std::to_string(pr[k].bid) + "_bid " + std::to_string(pr[k].prio) + "_prio") == std::string::npos) fail("dump", "a dump shows a wrong provider: %s", it.provs[i][k].c_str());
        }
        PROBE("a dump with the features of a type");
    }
    if (it.has_q) {
        if (it.want_q != int(it.queries.size())) fail("dump", "a dump announces %d matching requests but lists %lu", it.want_q, (unsigned long)it.queries.size());
        if (s) {
            std::vector<ML> q;
            for (auto& x : s->queries) if (x.second == it.row) q.push_back(x.first);
            std::sort(q.begin(), q.end());
            auto g = it.queries;
            std::sort(g.begin(), g.end());
            if (q != g) fail("dump", "a dump shows other requests for the type %s than it shows stored", ml_str(it.type).c_str());
        }
    }
    if (it.has_t) {
        std::vector<std::string> w;
        if (s) { for (int t : s->tcs) if (tc_model(t, it.type)) w.push_back(W.tcname[t]); }
        else { for (int t = 0; t < NTC; ++t) if ((regt >> t & 1) && tc_model(t, it.type)) w.push_back(W.tcname[t]); }
        auto g = it.tcs;
        std::sort(w.begin(), w.end());
        std::sort(g.begin(), g.end());
        if (w != g) fail("dump", "a dump shows %lu matching type classes of the type %s instead of %lu", (unsigned long)g.size(), ml_str(it.type).c_str(), (unsigned long)w.size());
    }
}
}

static void do_dump(uint32_t flags) {
    StrBuf sb;
    Snapshot* s = new Snapshot();
    bool full = (flags & 0x3f) == 0x3f;
    std::vector<std::pair<std::string, ML>> types;
    bool unique = true;
    for (int m = 0; m < NM; ++m) if (!name_unique(m)) unique = false;
    for (int f = 0; f < NF; ++f) for (int g = 0; g < f; ++g) if (W.fname[f] == W.fname[g]) unique = false;
    Call c(RC_SNAPSHOT);
    {
        std::ostream out(&sb);
        out.exceptions(std::ios::badbit);
        bool ok = sut([&] { dx::util::dbg_dmp(out, *W.d0, flags); });
        c.ret(ok);
        if (!no_fault_expected(ok, false, "a dump")) {
            c.fin();
            delete s;
            PROBE("dump interrupted");
            return;
        }
    }
    s->counts_only = !full || !unique;
    for (auto& x : s->n) x = -1;
    static const char* const sect[] = {"Features", "Mixins", "Mutation Rules", "Types", "Type Classes", "Type Queries"};
    static const char* const item[] = {"feature: ", "mixin: ", "rule: ", "type: ", "type class: ", "tq: "};
    static const unsigned bit[] = {1, 2, 4, 0x10, 8, 0x20};
    int cur = -1, want = 0, have = 0;
    bool seen[6] = {};
    auto close = [&] {
        if (cur >= 0 && want != have) fail("dump", "a dump announces %d %s but lists %d", want, sect[cur], have);
        if (cur >= 0 && cur < 5) s->n[cur] = want;
    };
    size_t i = 0;
    int slots = 0, nsettings = 0;
    unsigned shown = 0;
    std::vector<DumpItem> items;
    std::vector<std::pair<int, std::string>> tcm; // lines below type classes
    while (i < sb.s.size()) {
        size_t e = sb.s.find('\n', i);
        if (e == std::string::npos) e = sb.s.size();
        std::string l = sb.s.substr(i, e - i);
        i = e + 1;
        if (l.compare(0, 3, "## ") == 0) {
            int k = -1;
            if (l == "## Settings") { ++nsettings; continue; }
            size_t sp = l.find(' ', 3);
            if (sp == std::string::npos) fail("dump", "a dump has a section without a name: %s", l.c_str());
            for (int q = 0; q < 6; ++q) if (l.compare(sp + 1, std::string::npos, sect[q]) == 0) k = q;
            if (k < 0) continue;
            close();
            cur = k; want = atoi(l.c_str() + 3); have = 0; slots = 0;
            if (seen[k]) fail("dump", "a dump has two sections for %s", sect[k]);
            seen[k] = true;
            continue;
        }
        if (cur < 0 && !l.compare(0, 8, "domain: ")) {
            size_t p = 0;
            std::string n, ud, ctx;
            if (!cut(l, p, "'", "'", n) || !cut(l, p, "ud: ", ",", ud) || !cut(l, p, "ctx : ", ",", ctx)) fail("dump", "the dump of a domain begins with: %s", l.c_str());
            // user data and context change only in the sequential phases
            if (n != "dom0" || strtoull(ud.c_str(), nullptr, 10) != W.d0->user_data || (ctx == "<null>" ? nullptr : reinterpret_cast<void*>(strtoull(ctx.c_str(), nullptr, 16))) != W.d0->context || (l.find("alloc: default") != std::string::npos) != !(W.cfg.dom_pool && !W.cfg.dom_c)) fail("dump", "a dump tells something wrong about a domain: %s", l.c_str());
            if (W.d0->context) PROBE("a dump of a domain with a context");
        }
        if (cur < 0 && !l.empty() && l[0] == ' ') {
            static const char* const names[] = {"canonicalize_types: ", "allow_duplicate_feature_names: ", "allow_duplicate_mixin_names: "};
            const bool vals[] = {bool(W.cfg.canon), bool(W.cfg.dup_features), bool(W.cfg.dup_mixins)};
            for (int k = 0; k < 3; ++k) {
                size_t q = l.find(names[k]);
                if (q == std::string::npos) continue;
                shown |= 1u << k;
                if (dump_flag(l.substr(q + strlen(names[k]))) != vals[k]) fail("dump", "a dump shows the wrong settings");
            }
        }
        if (cur < 0 || l.empty()) continue;
        if (l[0] == ' ' && cur == 4) { tcm.push_back({s->tcs.empty() ? -1 : s->tcs.back(), l}); continue; }
        if (l[0] == ' ') { if (!s->counts_only && !items.empty() && (cur == 1 || cur == 3)) dump_detail(items.back(), l); continue; }
        std::string b = l;
        if (cur == 1 && b.compare(0, 4, "dep-") == 0) b = b.substr(4);
        if (b.compare(0, strlen(item[cur]), item[cur]) != 0) {
            size_t x = b.find(" empty slots");
            if (x != std::string::npos && cur < 2) slots += atoi(b.c_str());
            continue;
        }
        int pos = have + slots;
        ++have;
        if (s->counts_only) continue;
        size_t p = 0;
        std::string n, v;
        bool good = true;
        switch (cur) {
        case 0: case 1: {
            good = cut(b, p, "'", "'", n) && cut(b, p, "id: ", cur == 0 ? "," : " ", v);
            if (!good) break;
            int idx = -1;
            if (cur == 0) { for (int q = 0; q < NF; ++q) if (W.fname[q] == n) idx = q; s->feat.push_back({atoi(v.c_str()), idx}); }
            else { for (int q = 0; q < NM; ++q) if (W.mname[q] == n) idx = q; s->mix.push_back({atoi(v.c_str()), idx}); }
            if (idx < 0) good = false;
            if (cur == 1) { items.emplace_back(); items.back().mix = idx; }
            if (pos != atoi(v.c_str())) fail("dump", "a dump shows id %s in position %d", v.c_str(), pos);
            break;
        }
        case 2: {
            std::string ud, refs;
            good = cut(b, p, "'", "'", n) && cut(b, p, "ud: ", ",", ud);
            if (!good) break;
            size_t q = b.rfind(", ");
            refs = b.substr(q + 2);
            int idx = n == "canonicalize types" && W.cfg.canon && b.find("2147483647") != std::string::npos ? -2 : atoi(ud.c_str());
            if (idx != -2 && (idx < 0 || idx >= NRALL || W.rules[idx].name != n)) { good = false; break; }
            s->rules.push_back({idx, atoi(refs.c_str())});
            break;
        }
        case 3: {
            ML tl;
            good = names_list(b, p, tl) && cut(b, p, "(", ")", v);
            if (!good) break;
            auto* ptr = reinterpret_cast<const dx::type*>(strtoull(v.c_str(), nullptr, 16));
            s->types.push_back({tl, type_row(ptr, tl)});
            items.emplace_back();
            items.back().type = tl;
            items.back().row = s->types.back().second;
            break;
        }
        case 4: {
            good = cut(b, p, "'", ", match", n) != nullptr;
            if (!good) break;
            if (!n.empty() && n.back() == '\'') n.pop_back();
            // several may have the same name, but only one of them is registered
            int idx = -1;
            for (int q = 0; q < NTC; ++q) if (W.tcname[q] == n && (idx < 0 || (regt >> q & 1))) idx = q;
            if (idx < 0) good = false;
            s->tcs.push_back(idx);
            bool dup = false;
            for (int q = 0; q < NTC; ++q) if (q != idx && W.tcname[q] == n) dup = true;
            if (dup) s->counts_only = true;
            break;
        }
        case 5: {
            ML ql, tl;
            good = names_list(b, p, ql) && names_list(b, p, tl);
            if (!good) break;
            int row = -2;
            if (ml_n(tl)) {
                row = -1;
                for (auto& x : s->types) if (x.first == tl) row = x.second;
                if (row < 0) fail("dump", "a dumped request leads to a type %s which is not among the dumped types", ml_str(tl).c_str());
            }
            s->queries.push_back({ql, row});
            break;
        }
        }
        if (!good) fail("dump", "a dump has a line which does not describe anything of the domain: %s", b.c_str());
    }
    close();
    bool settings = flags & 0x40;
    if (nsettings != settings || shown != (settings ? 7u : 0u)) fail("dump", settings ? "a dump does not show the settings" : "a dump has settings which were not asked for");
    for (int k = 0; k < 6; ++k) {
        if ((flags & bit[k]) && !seen[k]) fail("dump", "a dump has no section for %s", sect[k]);
        if (!(flags & bit[k]) && seen[k]) fail("dump", "a dump has a section for %s which was not asked for", sect[k]);
    }
    if (!s->counts_only) for (auto& it : items) dump_done(it, flags, s);
    if (!s->counts_only) {
        std::vector<std::pair<int, int>> got, want; // class, type
        for (auto& x : tcm) {
            size_t p = 0;
            ML tl;
            std::string v;
            if (x.second.compare(0, 8, "  match ") || !names_list(x.second, p, tl) || !cut(x.second, p, "(", ")", v)) fail("dump", "a dump has an unknown line for a type class: %s", x.second.c_str());
            got.push_back({x.first, type_row(reinterpret_cast<const dx::type*>(strtoull(v.c_str(), nullptr, 16)), tl)});
        }
        if (flags & 0x100000) for (int t : s->tcs) for (auto& x : s->types) if (tc_model(t, x.first)) want.push_back({t, x.second});
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        if (got != want) fail("dump", "a dump shows %lu matching types of the type classes instead of %lu", (unsigned long)got.size(), (unsigned long)want.size());
        if (!want.empty()) PROBE("a dump with matching types of type classes");
    }
    c->snap = s;
    c.fin();
    if (!c.c) delete s;
}

// a dump of one entity; false: not possible now
static bool do_small_dump(int what, int which, uint32_t flags) {
    StrBuf sb;
    std::ostream out(&sb);
    out.exceptions(std::ios::badbit);
    bool unique = true;
    for (int m = 0; m < NM; ++m) if (!name_unique(m)) unique = false;
    auto first = [&] { return sb.s.substr(0, sb.s.find('\n')); };
    auto with = [&](const std::string& part) { if (first().find(part) == std::string::npos) fail("dump", "a dump does not show \"%s\": %s", part.c_str(), first().c_str()); };
    auto details = [&](DumpItem& it) {
        size_t i = sb.s.find('\n');
        while (i != std::string::npos && i + 1 < sb.s.size()) {
            size_t e = sb.s.find('\n', i + 1);
            dump_detail(it, sb.s.substr(i + 1, e == std::string::npos ? e : e - i - 1));
            i = e;
        }
    };
    if (what == 0) {
        int slot = which % NOBJ;
        if (!usable(slot, false)) return false;
        ML l = W.obj[slot].type;
        auto& t = W.obj[slot].ptr->get_type();
        if (!no_fault_expected(sut([&] { dx::util::dbg_dmp(out, t, flags); }), false, "a dump")) return true;
        if (!unique) return true;
        ML tl; size_t p = 0;
        if (!names_list(sb.s, p, tl) || tl != l) fail("dump", "the dump of a type with %s shows %s", ml_str(l).c_str(), first().c_str());
        DumpItem it;
        it.type = l;
        details(it);
        if (conc()) it.has_t = it.has_t && !(flags & 0x8000); // the type classes may change
        if (!conc() || !(flags & 0x8000)) dump_done(it, flags, nullptr);
        PROBE("a dump of a type");
        return true;
    }
    if (conc()) return false;
    if (what == 1) {
        int m = which % NM;
        if (!no_fault_expected(sut([&] { dx::util::dbg_dmp(out, *W.mix[m], flags); }), false, "a dump")) return true;
        with("'" + W.mname[m] + "'");
        if (m == M_FOREIGN) return true;
        if (regm >> m & 1) with("id: " + std::to_string(W.mix[m]->id.i)); else with("unregistered");
        with(std::to_string(mcfg(m).nfeat) + " features");
        if (!unique || m >= MD0) return true;
        DumpItem it;
        it.mix = m;
        details(it);
        dump_done(it, flags, nullptr);
    }
    else if (what == 2) {
        int f = which % NF;
        if (!no_fault_expected(sut([&] { dx::util::dbg_dmp(out, *W.feat[f], flags); }), false, "a dump")) return true;
        with("'" + W.fname[f] + "'");
        if (W.feat[f]->id != dx::invalid_feature_id) with("id: " + std::to_string(W.feat[f]->id.i)); else with("unregistered");
    }
    else if (what == 3) {
        int r = which % NR;
        if (!no_fault_expected(sut([&] { dx::util::dbg_dmp(out, *W.rule[r], flags); }), false, "a dump")) return true;
        with("'" + W.rules[r].name + "'");
        with("prio: " + std::to_string(W.rules[r].cfg.prio));
    }
    else {
        int t = which % NTC;
        if (!no_fault_expected(sut([&] { dx::util::dbg_dmp(out, *W.tc[t], flags); }), false, "a dump")) return true;
        with(W.tcname[t]);
    }
    return true;
}

// ---- domain operations ----
static int err_ok(dnmx_error_return_t e) { return e == 0; }

static bool owner_ok(int o) { return !conc() || o == rt::cur(); }

static void sync_flags() { // executor flags after a registration
    if (conc()) return;
    auto& s = ds();
    regm = regf = 0;
    for (int i = 0; i < 16; ++i) if (s.mix[i] >= 0) regm |= 1u << s.mix[i];
    for (int i = 0; i < 8; ++i) if (s.feat[i] >= 0) regf |= 1u << s.feat[i];
    regt = s.tc;
    for (int i = 0; i < NRALL; ++i) rulecnt[i] = s.rules[i];
}

// two domains with some mixins, types and an object, which live for a moment
static int life_init_count[rt::MAXF], life_rule_count[rt::MAXF];
static dnmx_error_return_t life_init(const dnmx_mixin_info*, void* p) DNMX_NOEXCEPT { HarnessScope hs; ++life_init_count[rt::cur()]; *static_cast<int*>(p) = 5; return dnmx_result_success; }
static void life_destroy(const dnmx_mixin_info*, void* p) DNMX_NOEXCEPT { HarnessScope hs; if (*static_cast<int*>(p) == 5) --life_init_count[rt::cur()]; *static_cast<int*>(p) = 0; }
static dnmx_error_return_t life_rule(dnmx_type_mutation_handle h, uintptr_t ud) {
    { HarnessScope hs; ++life_rule_count[rt::cur()]; }
    auto* m = reinterpret_cast<const dx::mixin_info*>(ud);
    auto& tm = *dx::type_mutation::from_c_handle(h);
    if (m->dom == tm.dom.to_c_hanlde()) tm.add_if_lacking(*m);
    return dnmx_result_success;
}
static void* life_alloc(const dnmx_mixin_info*) { return nullptr; }
static void life_dealloc(void*, const dnmx_mixin_info*) {}
static void domain_life(int a1) {
    struct Life {
        dx::feature_info f[2] = {dnmx_make_feature_info(), dnmx_make_feature_info()};
        dx::mixin_info m[4] = {dnmx_make_mixin_info(), dnmx_make_mixin_info(), dnmx_make_mixin_info(), dnmx_make_mixin_info()};
        dx::feature_for_mixin fm[2] = {};
        dx::mutation_rule_info rule = {};
        alignas(dx::domain) char a[sizeof(dx::domain)];
        alignas(dx::object) char ob[sizeof(dx::object)];
    };
    bool canon = a1 & 1, bc = a1 & 2, dupm = a1 & 4, dupf = a1 & 8, named = a1 & 16, own = a1 & 32, keep = a1 & 64;
    auto* L = new (rt::alloc(sizeof(Life), alignof(Life) < 16 ? 16 : alignof(Life), P_WORLD)) Life();
    for (int i = 0; i < 4; ++i) {
        auto& m = L->m[i];
        m.name = dnmx_sv::from_std(i == 2 ? "" : i == 3 ? "other" : "same");
        m.set_size_alignment(4, 4);
        m.init = life_init;
        m.destroy = life_destroy;
    }
    for (int i = 0; i < 2; ++i) {
        L->f[i].name = dnmx_sv::from_std("feature");
        L->fm[i].info = &L->f[i];
        L->fm[i].payload = L;
        L->m[i].set_features({&L->fm[i], 1});
    }
    L->rule = {dnmx_sv::from_std("shared"), life_rule, uintptr_t(&L->m[3]), 0};
    dx::domain *A = nullptr, *B = nullptr;
    dnmx_domain_handle bh = nullptr;
    int &inits = life_init_count[rt::cur()], &calls = life_rule_count[rt::cur()];
    inits = calls = 0;
    const char* wrong = nullptr;
    auto check = [&](bool c, const char* what) { HarnessScope hs; if (!c && !wrong && !rt::fault_fired()) wrong = what; };
    bool ok = sut([&] {
        auto throws = [](auto f) { try { f(); return false; } catch (dx::domain_error&) { return true; } };
        dx::domain_settings st = dx::domain_settings_builder().canonicalize_types(canon).allow_duplicate_feature_names(dupf).allow_duplicate_mixin_names(dupm);
        std::string_view name = named ? "life" : "";
        struct Guard { std::function<void()> f; ~Guard() { f(); } };
        std::function<void()> end_b = [&] { if (bc) { if (bh) dnmx_destroy_domain(bh); } else delete B; };
        std::function<void()> end_a = [&] { if (A) A->~domain(); A = nullptr; };
        Guard gb{end_b}, ga{end_a};
        if (bc) { bh = dnmx_create_domain(dnmx_sv::from_std(name), st, 3, nullptr); if (!bh) { check(false, "the creation of a domain failed"); return; } B = dx::domain::from_c_handle(bh); }
        else B = own ? new dx::domain(name, st, 3, nullptr, pool_alloc(P_DOM)) : new dx::domain(name, st, 3);
        A = own ? new (L->a) dx::domain(name, st, 0, L, pool_alloc(P_DOM)) : new (L->a) dx::domain(name, st, 0, L);
        check(A->name() == name && B->name() == name && A->context == L && B->user_data == 3, "a domain does not know its name or data");
        A->add_mutation_rule(L->rule);
        B->add_mutation_rule(L->rule);
        A->add_mutation_rule(L->rule);
        size_t n = canon ? 2 : 1;
        check(A->num_mutation_rules() == n && B->num_mutation_rules() == n, "a domain has the wrong rules");
        A->register_mixin(L->m[0]);
        check(L->m[0].id.i == 0 && L->m[0].dom == A->to_c_hanlde() && L->f[0].id.i == 0, "a mixin was not registered with its features");
        bool t1 = throws([&] { A->register_mixin(L->m[1]); }), t2 = throws([&] { A->register_mixin(L->m[2]); });
        check(t1 == !(dupm && dupf) && t2 == !dupm, "names are not checked according to the settings");
        check((L->f[1].id != dx::invalid_feature_id) == dupf && (t1 || L->m[1].id.i == 1) && (t2 || L->m[2].id.i == unsigned(t1 ? 1 : 2)), "ids are wrong");
        check(throws([&] { B->register_mixin(L->m[0]); }), "a mixin was registered in two domains");
        check(throws([&] { B->unregister_mixin(L->m[0]); }), "a mixin was unregistered from the wrong domain");
        B->register_mixin(L->m[3]);
        check(L->m[3].id.i == 0 && L->m[3].dom == B->to_c_hanlde(), "a mixin of the second domain was not registered");
        const dx::mixin_info *pa = &L->m[0], *pb = &L->m[3], *pd[2] = {&L->m[0], &L->m[1]};
        int before = calls;
        auto& ta = A->get_type({&pa, 1});
        check(&A->get_type({&pa, 1}) == &ta && A->get_mixin_info("same") == &L->m[0], "a request which is repeated or a lookup is wrong");
        check(calls == before + 1 && &ta.dom == A && ta.num_mixins() == 1 && A->num_types() == 1 && B->num_types() == 0, "a type is wrong");
        check(throws([&] { B->get_type({&pa, 1}); }), "a domain made a type of a mixin of another one");
        if (!t1) { auto& td = A->get_type({pd, 2}); check(td.num_mixins() == 2 && td.has(L->m[0]) && td.has(L->m[1]), "a type of two mixins of the same name is wrong"); }
        auto& tb = B->get_type({});
        check(tb.num_mixins() == 1 && tb.mixins[0] == &L->m[3] && &tb == &B->get_type({&pb, 1}) && &A->get_type({}) == &A->get_empty_type(), "a rule which is in two domains is not applied in each");
        {
            auto* o = new (L->ob) dx::object(*A);
            Guard go{[&] { o->~object(); }};
            dx::mutate_to(*o, ta);
            check(inits == 1 && o->get(L->m[0]) && *static_cast<const int*>(o->get(L->m[0])) == 5 && ta.num_objects() == 1, "an object is wrong");
            A->garbage_collect_types();
            check(A->num_types() == 1, "the collection of types is wrong");
            if (keep) { o->~object(); new (o) dx::object(ta); check(inits == 1, "an object is wrong"); }
        }
        check(inits == 0 && ta.num_objects() == 0, "an object was not destroyed");
        A->remove_mutation_rule(L->rule);
        check(A->num_mutation_rules() == n && B->num_mutation_rules() == n, "the removal of a rule which was added twice is wrong");
        if (keep) { A->unregister_mixin(L->m[0]); check(A->num_types() == 0 && !L->m[0].registered() && (L->f[0].id != dx::invalid_feature_id) && !A->get_mixin_info("same") == t1, "the unregistration of a mixin is wrong"); }
        end_a();
        before = calls;
        auto& tb2 = B->get_type({});
        check(&tb2 == &tb && B->num_types() == 1 && B->get_mixin_info("other") == &L->m[3] && calls <= before + 2, "a domain changed when another one was destroyed");
        // another one takes the place of the first
        L->m[0].id = dx::invalid_mixin_id; L->m[1].id = dx::invalid_mixin_id; L->m[2].id = dx::invalid_mixin_id;
        L->m[0].dom = L->m[1].dom = L->m[2].dom = nullptr;
        L->f[0].id = L->f[1].id = dx::invalid_feature_id;
        A = own ? new (L->a) dx::domain(name, st, 0, L, pool_alloc(P_DOM)) : new (L->a) dx::domain(name, st, 0, L);
        A->add_mutation_rule(L->rule);
        A->add_mutation_rule(L->rule);
        check(A->num_types() == 0 && A->num_mutation_rules() == n && !A->get_mixin_info("same") && !A->get_mixin_info("other") && !A->get_mixin_info(dx::mixin_id{0}) && !A->get_feature_info("feature"), "a new domain in the place of another one is not empty");
        bool none = false;
        try { A->get_type({&pa, 1}); } catch (dx::type_error&) { none = true; }
        check(none && &A->get_type({}) == &A->get_empty_type(), "a new domain in the place of another one answers requests of that one");
        A->register_mixin(L->m[0]);
        auto& tn = A->get_type({&pa, 1});
        check(&tn.dom == A && tn.num_mixins() == 1 && tn.mixins[0] == &L->m[0] && A->num_types() == 1 && tn.num_objects() == 0 && &A->get_type({&pa, 1}) == &tn, "a new domain in the place of another one answers requests with types of that one");
        end_a();
        check(&B->get_type({}) == &tb, "a domain changed when another one was destroyed");
        B->remove_mutation_rule(L->rule);
        check(&B->get_type({}) == &B->get_empty_type(), "a removed rule is applied");
    });
    if (wrong) fail("domain-life", "two domains which live for a moment: %s", wrong);
    no_fault_expected(ok, false, "the life of two domains");
    if (inits) fail("domain-life", "%d instances of mixins of a destroyed domain live", inits);
    rt::dealloc(L, rt::unknown, rt::unknown, P_WORLD);
    PROBE("two domains lived for a moment");
}

static bool exec_domain(const Op& op) {
    int a0 = int(op.a[0]), a1 = int(op.a[1]), a2 = int(op.a[2]);
    switch (op.kind) {
    case O_REG_MIXIN: {
        int m = a0 % NM;
        if ((m >= MD0 && m < MD0 + NMD) || m == M_NEVER) return false;
        if (!owner_ok(W.cfg.mix[m].owner)) return false;
        if (byname_in_force(m)) return false;
        if (m == M_FOREIGN && conc()) return false; // registered in the other domain: reading its id is up to that domain
        Call c(RC_REG_MIXIN);
        c->a = m;
        bool ok = a1 & 1 ? csut([&] { return err_ok(dnmx_register_mixin(W.d0->to_c_hanlde(), W.mix[m])); }) : sut([&] { W.d0->register_mixin(*W.mix[m]); });
        c.ret(ok);
        c->b = ok ? int(W.mix[m]->id.i) : -1;
        c.fin();
        if (ok) regm |= 1u << m;
        if (ok && W.mix[m]->dom != W.d0->to_c_hanlde()) fail("domain: register-mixin", "a registered mixin does not know its domain");
        if (!ok && !(regm >> m & 1) && m != M_FOREIGN && (W.mix[m]->id != dx::invalid_mixin_id || W.mix[m]->dom)) fail("domain: register-mixin", "a mixin has an id or domain although its registration failed");
        return true;
    }
    case O_UNREG_MIXIN: {
        int m = a0 % NM;
        if (m >= MD0 && m < MD0 + NMD) return false;
        if (!owner_ok(W.cfg.mix[m].owner) || (conc() && (m == M_FOREIGN || m == M_NEVER))) return false;
        if (byname_in_force(m)) return false;
        bool reg = regm >> m & 1;
        for (auto& o : W.obj) if (o.alive && ml_has(o.type, m) && reg) return false;
        Call c(RC_UNREG_MIXIN);
        c->a = m;
        bool ok;
        if (a1 & 1) { csut([&] { dnmx_unregister_mixin(W.d0->to_c_hanlde(), W.mix[m]); return true; }); ok = reg; } // (returns nothing)
        else ok = sut([&] { W.d0->unregister_mixin(*W.mix[m]); });
        c.ret(ok);
        c.fin();
        if (ok) regm &= ~(1u << m);
        if (ok && (W.mix[m]->id != dx::invalid_mixin_id || W.mix[m]->dom)) fail("domain: unregister-mixin", "an unregistered mixin has an id or a domain");
        return true;
    }
    case O_REG_FEAT: {
        int f = a0 % NF;
        if (conc() && (f < 4 || feat_used(f) || rt::cur() != f - 3)) return false;
        Call c(RC_REG_FEAT);
        c->a = f;
        bool ok = a1 & 1 ? csut([&] { return err_ok(dnmx_register_feature(W.d0->to_c_hanlde(), W.feat[f])); }) : sut([&] { W.d0->register_feature(*W.feat[f]); });
        c.ret(ok);
        c->b = ok ? int(W.feat[f]->id.i) : -1;
        c.fin();
        if (ok) regf |= 1u << f;
        if (!ok && !(regf >> f & 1) && W.feat[f]->id != dx::invalid_feature_id) fail("domain: register-feature", "a feature has an id although its registration failed");
        return true;
    }
    case O_UNREG_FEAT: {
        int f = a0 % NF;
        if (conc() && (f < 4 || feat_used(f) || rt::cur() != f - 3)) return false;
        bool reg = regf >> f & 1;
        for (int m = 0; m < NM; ++m) if (regm >> m & 1) { auto c = mcfg(m); for (int i = 0; i < c.nfeat; ++i) if (c.feat[i].f == f) return false; }
        Call c(RC_UNREG_FEAT);
        c->a = f;
        bool ok;
        if (a1 & 1) { csut([&] { dnmx_unregister_feature(W.d0->to_c_hanlde(), W.feat[f]); return true; }); ok = reg; }
        else ok = sut([&] { W.d0->unregister_feature(*W.feat[f]); });
        c.ret(ok);
        c.fin();
        if (ok) regf &= ~(1u << f);
        return true;
    }
    case O_REG_TC: {
        int t = a0 % NTC;
        if (!owner_ok(t % (W.cfg.nfibers ? W.cfg.nfibers : 1) + 1)) return false;
        if (regt >> t & 1) return false; // the same class twice: the second is a duplicate name; fine but not different
        Call c(RC_REG_TC);
        c->a = t;
        bool ok = a1 & 1 ? csut([&] { return err_ok(dnmx_register_type_class(W.d0->to_c_hanlde(), W.tc[t])); }) : sut([&] { W.d0->register_type_class(*W.tc[t]); });
        c.ret(ok);
        c.fin();
        if (ok) regt |= 1u << t;
        return true;
    }
    case O_UNREG_TC: {
        int t = a0 % NTC;
        if (!owner_ok(t % (W.cfg.nfibers ? W.cfg.nfibers : 1) + 1)) return false;
        Call c(RC_UNREG_TC);
        c->a = t;
        bool ok = a1 & 1 ? csut([&] { dnmx_unregister_type_class(W.d0->to_c_hanlde(), W.tc[t]); return true; }) : sut([&] { W.d0->unregister_type_class(*W.tc[t]); });
        if (!ok) fail("domain: unregister-type-class", "the unregistration of a type class failed");
        c.ret(ok);
        c.fin();
        regt &= ~(1u << t);
        return true;
    }
    case O_LOOKUP: {
        bool capi = a2 & 1;
        auto h = W.d0->to_c_hanlde();
        if (a0 % 5 == 0 || a0 % 5 == 2) {
            bool mix = a0 % 5 == 0;
            uint32_t id = uint32_t(a1 < 0 ? dnmx_invalid_id : a1 % 18);
            Call c(mix ? RC_LOOKUP_MIX_ID : RC_LOOKUP_FEAT_ID);
            const void* p = nullptr;
            bool ok = sut([&] {
                if (mix) p = capi ? dnmx_get_mixin_info_by_id(h, dx::mixin_id{id}) : W.d0->get_mixin_info(dx::mixin_id{id});
                else p = capi ? dnmx_get_feature_info_by_id(h, dx::feature_id{id}) : W.d0->get_feature_info(dx::feature_id{id});
            });
            c.ret(ok);
            c->a = a1 < 0 ? -1 : int(id);
            c->b = !p ? -1 : mix ? mix_index(static_cast<const dx::mixin_info*>(p)) : feat_index(static_cast<const dx::feature_info*>(p));
            if (p && c->b < 0) fail("domain: lookup", "a lookup by id found something unknown");
            c.fin();
            return true;
        }
        std::string name = "no such name";
        const void* p = nullptr;
        int kind = a0 % 5 == 1 ? RC_LOOKUP_MIX_NAME : a0 % 5 == 3 ? RC_LOOKUP_FEAT_NAME : RC_LOOKUP_TC;
        int i = a1 < 0 ? 0 : a1;
        if (kind == RC_LOOKUP_MIX_NAME && i % (NM + 2) < NM) { if (conc() && i % (NM + 2) >= MD0 && !mix_ok(i % (NM + 2))) return false; name = W.mname[i % (NM + 2)]; }
        if (kind == RC_LOOKUP_FEAT_NAME && i % (NF + 1) < NF) name = W.fname[i % (NF + 1)];
        if (kind == RC_LOOKUP_TC && i % (NTC + 1) < NTC) name = W.tcname[i % (NTC + 1)];
        Call c(kind);
        bool ok = sut([&] {
            auto sv = dnmx_sv::from_std(std::string_view(name));
            if (kind == RC_LOOKUP_MIX_NAME) p = capi ? dnmx_get_mixin_info_by_name(h, sv) : W.d0->get_mixin_info(std::string_view(name));
            else if (kind == RC_LOOKUP_FEAT_NAME) p = capi ? dnmx_get_feature_info_by_name(h, sv) : W.d0->get_feature_info(std::string_view(name));
            else p = capi ? dnmx_get_type_class_by_name(h, sv) : W.d0->get_type_class(std::string_view(name));
        });
        c.ret(ok);
        c->name = name;
        c->b = !p ? -1 : kind == RC_LOOKUP_MIX_NAME ? mix_index(static_cast<const dx::mixin_info*>(p)) : kind == RC_LOOKUP_FEAT_NAME ? feat_index(static_cast<const dx::feature_info*>(p)) : tc_index(static_cast<const dx::type_class*>(p));
        if (p && c->b < 0) fail("domain: lookup", "a lookup by name found something unknown");
        c.fin();
        return true;
    }
    case O_ADD_RULE: {
        int r = a0 % NR;
        if (gcc() || !rule_touch_ok(W.rules[r].cfg)) return false;
        auto& rc = W.rules[r].cfg;
        if (rc.byname && (!name_unique(rc.a) || !name_unique(rc.b) || rc.a >= MD0 || rc.b >= MD0)) return false;
        if (rulecnt[r] > 200 || rule_collides(r)) return false;
        bool null = a2 & 1;
        dx::mutation_rule_info nr = *W.rule[r];
        nr.apply = nullptr;
        auto* p = null ? &nr : W.rule[r];
        Call c(RC_ADD_RULE);
        c->a = r; c->b = null;
        bool ok = a1 & 1 ? csut([&] { return err_ok(dnmx_add_mutation_rule(W.d0->to_c_hanlde(), p)); }) : sut([&] { W.d0->add_mutation_rule(*p); });
        c.ret(ok);
        if (ok && null) fail("domain: add-rule", "a rule without a function was added");
        c.fin();
        if (ok) ++rulecnt[r];
        return true;
    }
    case O_REM_RULE: {
        int r = a0 % NR;
        if (gcc()) return false;
        if (!rule_touch_ok(W.rules[r].cfg)) return false;
        auto& rc = W.rules[r].cfg;
        if (rc.byname && conc() && (!name_unique(rc.a) || !name_unique(rc.b))) return false;
        if (rule_collides(r)) return false; // would be found by the order
        Call c(RC_REM_RULE);
        c->a = r;
        bool ok = a1 & 1 ? csut([&] { dnmx_remove_mutation_rule(W.d0->to_c_hanlde(), W.rule[r]); return true; }) : sut([&] { W.d0->remove_mutation_rule(*W.rule[r]); });
        if (!ok) fail("domain: remove-rule", "the removal of a rule failed");
        c.ret(ok);
        c.fin();
        if (rulecnt[r]) --rulecnt[r];
        return true;
    }
    case O_GET_TYPE: {
        ML req = ML(op.a[0]), l = 0;
        if (!request_allowed(req)) return false;
        const dx::type* t = request(req, a1, l);
        if (t && !(gcc() && !pinned_type(l))) check_type(*t, l, a2 & 1);
        return true;
    }
    case O_GC: {
        if (conc() && !gcc()) return false;
        std::vector<int> keep;
        for (auto& o : W.obj) {
            if (!o.alive || !ml_n(o.type)) continue;
            if (gcc() && o.owner != -1) continue;
            int row = -1;
            row = find_row(&o.ptr->get_type());
            if (row >= 0 && std::find(keep.begin(), keep.end(), row) == keep.end()) keep.push_back(row);
        }
        uint64_t t0 = ++live_time;
        Call c(RC_GC);
        c->keep = keep;
        bool ok = a1 & 1 ? csut([&] { dnmx_garbage_collect_types(W.d0->to_c_hanlde()); return true; }) : sut([&] { W.d0->garbage_collect_types(); });
        if (!ok) fail("domain: collect", "the collection of types failed");
        if (gcc()) {
            ++live_time;
            live_rows(t0, c->keep, c->maybe);
            if (c->keep.size() > keep.size()) PROBE("collection while fibers keep types");
            if (!c->maybe.empty()) PROBE("collection while a fiber gives up a type");
        }
        c.ret(ok);
        c.fin();
        return true;
    }
    case O_NUM: {
        bool rules = a0 & 1;
        Call c(rules ? RC_NUM_RULES : RC_NUM_TYPES);
        size_t n = 0;
        sut([&] { n = rules ? W.d0->num_mutation_rules() : a1 & 1 ? dnmx_get_num_types(W.d0->to_c_hanlde()) : W.d0->num_types(); });
        c.ret(true);
        c->a = int(n);
        c.fin();
        return true;
    }
    case O_TRAVERSE: snapshot_rec(); return true;
    case O_DUMP:
        if (conc() && W.cfg.nfibers) {
            // names of described mixins must not change meanwhile
            for (int k = 0; k < NMD; ++k) if (W.cfg.mix[MD0 + k].owner >= 0) return false;
        }
        if (op.a[1] % 10 < 3) return do_small_dump(op.a[1] % 10 == 0 ? int(op.a[2]) % 5 : 0, int(op.a[2]) / 5, uint32_t(op.a[0]));
        do_dump(uint32_t(op.a[0]));
        return true;
    case O_DOM_MISC: {
        auto h = W.d0->to_c_hanlde();
        if (a0 == 6) {
            if (conc()) return false;
            crowd(uint64_t(op.a[2]), uint64_t(op.a[3]), int(op.a[4]));
            return true;
        }
        if (a0 % 6 == 0) {
            if (conc()) return false;
            bool ok = true;
            uintptr_t ud = uintptr_t(op.a[2]);
            sut([&] {
                if (W.d0->name() != "dom0" || dnmx_get_domain_name(h).to_std() != "dom0") ok = false;
                auto& s = W.d0->settings();
                if (s.canonicalize_types != bool(W.cfg.canon) || s.allow_duplicate_mixin_names != bool(W.cfg.dup_mixins) || s.allow_duplicate_feature_names != bool(W.cfg.dup_features)) ok = false;
                auto cs = dnmx_get_domain_settings(h);
                if (cs.canonicalize_types != bool(W.cfg.canon) || cs.allow_duplicate_mixin_names != bool(W.cfg.dup_mixins) || cs.allow_duplicate_feature_names != bool(W.cfg.dup_features)) ok = false;
                dnmx_set_domain_user_data(h, ud);
                dnmx_set_domain_context(h, &W);
                if (W.d0->user_data != ud || dnmx_get_domain_user_data(h) != ud || W.d0->context != &W || dnmx_get_domain_context(h) != &W) ok = false;
                if (&W.d0->get_empty_type() != dx::type::from_c_handle(dnmx_get_empty_type(h)) || W.d0->get_empty_type().num_mixins()) ok = false;
                if (!(W.d0->get_allocator() == pool_alloc(W.cfg.dom_pool && !W.cfg.dom_c ? P_DOM : P_GLOBAL))) ok = false;
            });
            if (!ok) fail("domain-misc", "a domain tells something wrong about itself");
            return true;
        }
        if (a0 % 6 == 1) { domain_life(a1); return true; }
        if (a0 % 6 == 2) { // the mutation of a type of another domain
            bool refused = false, fine = true;
            bool ok = sut([&] {
                bool out = a1 & 1;
                dx::type_mutation tm(out ? *W.d0 : *W.d1);
                if (a1 & 4) tm.add(*W.mix[M_FOREIGN]);
                auto list = tm.mixins.size();
                try { (out ? W.d1 : W.d0)->get_type(std::move(tm)); }
                catch (dx::domain_error&) { refused = true; }
                if (tm.mixins.size() != list) fine = false;
                if (!out && W.d1->get_type(std::move(tm)).num_mixins() != list) fine = false;
            });
            if (!no_fault_expected(ok, false, "the mutation of a type of another domain")) return true;
            if (!refused) fail("domain-life", "a domain made a type from the mutation of a type of another domain");
            if (!fine) fail("domain-life", "a type mutation can not be used after it was refused by another domain");
            PROBE("a type mutation in the wrong domain");
            return true;
        }
        if (a0 % 6 == 3) {
            dnmx_mixin_allocator_handle ha = nullptr;
            bool ok = csut([&] { ha = dnmx_create_mixin_allocator(life_alloc, life_dealloc); if (ha) dnmx_destroy_mixin_allocator(ha); return ha; });
            no_fault_expected(ok, false, "the creation of an allocator of mixins");
            return true;
        }
        // a domain which lives for a moment
        bool made = false;
        dx::domain_settings st{};
        st.canonicalize_types = a1 & 1;
        if (a1 & 2) {
            bool ok = sut([&] {
                auto d = dnmx_create_domain(dnmx_sv::from_std("tmp"), st, 7, nullptr);
                if (d) { made = true; dnmx_destroy_domain(d); }
            });
            if (!ok) fail("c-interface", "an exception left dnmx_create_domain");
        }
        else {
            made = sut([&] {
                dx::domain d("tmp", st, 7, nullptr, pool_alloc(P_DOM));
                if (!d.get_empty_type().dom.name().empty() && d.num_types() == 0 && d.num_mutation_rules() == size_t(a1 & 1)) return;
                HarnessScope hs;
                fail("domain-misc", "a new domain is not empty");
            });
        }
        no_fault_expected(made, false, "the creation of a domain");
        return true;
    }
    case O_MD_BUILD: {
        int k = a0 % NMD, m = MD0 + k;
        if (regm >> m & 1) return false;
        if (conc() && W.cfg.mix[m].owner != rt::cur()) return false;
        int step = a1;
        if (conc() && md_frozen >> k & 1) return false; // the history refers to the description which was registered
        if (conc() && step == 4 && !feat_used(4 + int(op.a[2] & 1))) return false;
        if (step == 1 && (byname_in_force(-1) || (conc() && W.cfg.nfibers > 1))) return false;
        if (step == 8 && W.cfg.nfibers && W.cfg.mix[m].owner >= 0) return false;
        if ((step == 5 || step == 6) && W.cfg.nfibers) {
            int ra = int(op.a[2]) % NPLAIN, rb = int(op.a[3]) % (MD0 + NMD);
            if (W.cfg.mix[ra].owner >= 0 || W.cfg.mix[rb].owner >= 0) return false;
        }
        if (step == 7) {
            auto& rc = W.rules[int(op.a[2]) % NR].cfg;
            if (!rule_touch_ok(rc) || rc.byname) return false;
        }
        if (step == 8 && W.cfg.nfibers && W.cfg.mix[int(op.a[2]) & 3].owner >= 0) return false;
        for (auto& t : W.tm) if (t.alive && ml_has(t.list, m) && conc()) return false;
        md_step(k, op);
        md_verify(k);
        return true;
    }
    case O_MD_REG: {
        int k = a0 % NMD, m = MD0 + k;
        if (!owner_ok(W.cfg.mix[m].owner) || gcc()) return false;
        auto& d = W.md[k];
        for (size_t i = 0; i < d.rules.size(); ++i) {
            if (rule_collides(d.rules[i]) || rulecnt[d.rules[i]] > 200) return false;
            for (size_t j = 0; j < i; ++j) if (d.rules[i] == d.rules[j]) PROBE("a described mixin has a rule twice"); else if (!twins(W.rules[d.rules[i]].cfg, W.rules[d.rules[j]].cfg) && W.rules[d.rules[i]].cfg.prio == W.rules[d.rules[j]].cfg.prio && W.rules[d.rules[i]].name == W.rules[d.rules[j]].name) return false;
        }
        if (byname_in_force(m)) return false;
        if (conc()) md_frozen |= 1u << k;
        Call c(RC_MD_REG);
        c->a = m;
        c->rules = d.rules;
        bool ok = sut([&] { d.data->register_in(*W.d0); });
        c.ret(ok);
        c->b = ok ? int(W.mix[m]->id.i) : -1;
        c.fin();
        if (ok) { regm |= 1u << m; for (int r : d.rules) ++rulecnt[r]; }
        md_verify(k);
        return true;
    }
    case O_MD_UNREG: {
        int k = a0 % NMD, m = MD0 + k;
        if (!(regm >> m & 1) || !owner_ok(W.cfg.mix[m].owner) || gcc()) return false;
        for (auto& o : W.obj) if (o.alive && ml_has(o.type, m)) return false;
        if (byname_in_force(m)) return false;
        auto& d = W.md[k];
        Call c(RC_MD_UNREG);
        c->a = m;
        c->rules = d.rules;
        sut([&] { d.data->unregister_from(*W.d0); });
        c.ret(true);
        c.fin();
        regm &= ~(1u << m);
        for (int r : d.rules) if (rulecnt[r]) --rulecnt[r];
        md_verify(k);
        return true;
    }
    default: return false;
    }
}

// ---- type mutations ----
static void tm_check(TMModel& t, bool full) {
    auto& tm = *t.ptr;
    auto h = tm.to_c_hanlde();
    ML l = 0;
    sut([&] {
        size_t n = tm.mixins.size();
        for (size_t i = 0; i < n; ++i) { auto* p = tm.mixins[i]; HarnessScope hs; int m = mix_index(p); if (m < 0) fail("type-mutation", "a type mutation has an unknown mixin"); l = ml_add(l, m); }
        dnmx_mixin_index_t cn = 0;
        auto* cp = dnmx_type_mutation_get_mixins(h, &cn);
        if (cn != n || (n && cp[0] != tm.mixins[0]) || dnmx_type_mutation_get_domain(h) != W.d0->to_c_hanlde() || &tm.dom != W.d0) { HarnessScope hs; fail("type-mutation", "the C view of a type mutation differs"); }
    });
    if (l != t.list) fail("type-mutation", "a type mutation has the mixins %s instead of %s", ml_str(l).c_str(), ml_str(t.list).c_str());
    if (!full) return;
    for (int m = 0; m < NM; ++m) {
        if (conc() && m >= MD0 && !mix_ok(m)) continue;
        int i = ml_find(l, m), fi = first_named(l, W.mname[m]);
        auto* info = W.mix[m];
        std::string_view name = W.mname[m];
        auto* want = fi < 0 ? nullptr : W.mix[ml_at(l, fi)];
        bool good = true;
        sut([&] {
            good = tm.has(*info) == (i >= 0) && tm.lacks(*info) == (i < 0) && dnmx_type_mutation_has(h, info) == (i >= 0)
                && tm.has(name) == want && tm.lacks(name) == !want && dnmx_type_mutation_has_by_name(h, dnmx_sv::from_std(name)) == want;
        });
        bool r = false;
        typed_tm(tm, 4, m, r);
        if (!good || r != (i >= 0)) fail("type-mutation", "a type mutation with %s tells wrongly whether it has mixin %d", ml_str(l).c_str(), m);
    }
    for (int f = 0; f < NF; ++f) {
        bool strong = !providers(l, f).empty();
        const dx::feature_info* byname = nullptr;
        for (int i = 0; i < ml_n(l) && !byname; ++i) { auto c = mcfg(ml_at(l, i)); for (int k = 0; k < c.nfeat && !byname; ++k) if (W.fname[c.feat[k].f] == W.fname[f]) byname = W.feat[c.feat[k].f]; }
        bool any = strong || has_default(f);
        bool good = true;
        std::string_view name = W.fname[f];
        sut([&] {
            good = tm.implements_strong(*W.feat[f]) == strong && dnmx_type_mutation_implements_strong(h, W.feat[f]) == strong
                && tm.implements(*W.feat[f]) == any && dnmx_type_mutation_implements(h, W.feat[f]) == any
                && tm.implements_strong(name) == byname && dnmx_type_mutation_implements_strong_by_name(h, dnmx_sv::from_std(name)) == byname;
        });
        if (!good) fail("type-mutation", "a type mutation with %s tells wrongly whether it implements feature %d", ml_str(l).c_str(), f);
    }
}

static void tm_drop(TMModel& t) {
    sut([&] {
        if (t.is_c) dnmx_destroy_unused_type_mutation(t.ptr->to_c_hanlde());
        else t.ptr->~type_mutation();
    });
    if (!t.is_c) rt::dealloc(t.ptr, rt::unknown, rt::unknown, P_WORLD);
    t = TMModel();
}

static bool exec_tm(const Op& op) {
    int slot = int(op.a[0]) % NTM;
    auto& t = W.tm[slot];
    int owner = slot % (W.cfg.nfibers ? W.cfg.nfibers : 1) + 1;
    if (conc() && owner != rt::cur()) return false;
    int a1 = int(op.a[1]), a2 = int(op.a[2]), a3 = int(op.a[3]);
    switch (op.kind) {
    case O_TM_NEW: {
        if (t.alive) return false;
        const dx::type* base = nullptr;
        ML l = 0;
        if (a1 >= 0) {
            if (!usable(a1 % NOBJ, false)) return false;
            l = W.obj[a1 % NOBJ].type;
            if (ml_n(l) > 6) return false;
            base = &W.obj[a1 % NOBJ].ptr->get_type();
        }
        bool capi = a2 & 1;
        int pool = a2 & 2 ? P_OBJ3 : P_GLOBAL;
        bool ok;
        if (capi) {
            dnmx_type_mutation_handle h = nullptr;
            ok = csut([&] { h = base ? dnmx_create_type_mutation_from_type(base) : dnmx_create_type_mutation_empty(W.d0->to_c_hanlde()); return h != nullptr; });
            t.ptr = dx::type_mutation::from_c_handle(h);
        }
        else {
            void* mem = rt::alloc(sizeof(dx::type_mutation), alignof(dx::type_mutation), P_WORLD);
            ok = sut([&] {
                if (base) new (mem) dx::type_mutation(*base, pool_alloc(pool));
                else new (mem) dx::type_mutation(*W.d0, pool_alloc(pool));
            });
            if (ok) t.ptr = static_cast<dx::type_mutation*>(mem);
            else rt::dealloc(mem, rt::unknown, rt::unknown, P_WORLD);
        }
        no_fault_expected(ok, false, "the creation of a type mutation");
        if (!ok) { t = TMModel(); return true; }
        t.alive = true; t.is_c = capi; t.list = l; t.pool = pool; t.owner = owner;
        tm_check(t, false);
        return true;
    }
    case O_TM_DROP:
        if (!t.alive) return false;
        tm_check(t, false);
        tm_drop(t);
        return true;
    case O_TM_QUERY:
        if (!t.alive) return false;
        tm_check(t, true);
        return true;
    case O_TM_EDIT: {
        if (!t.alive) return false;
        int m = a2 % NM, by = a3 % 4; // by: info, name, typed, C
        if (!mix_ok(m)) return false;
        auto& tm = *t.ptr;
        auto h = tm.to_c_hanlde();
        auto* info = W.mix[m];
        std::string_view name = W.mname[m];
        ML l = t.list, want = l;
        int i = ml_find(l, m), fi = first_named(l, W.mname[m]);
        bool r = false, ok = true, must_fail = false, res_known = true, wr = false;
        const dx::mixin_info *rp = nullptr, *wp = nullptr;
        auto chk = [&](const char* what) {
            no_fault_expected(ok, must_fail, what);
            if (ok) {
                if (res_known && r != wr) fail("type-mutation", "%s of mixin %d with %s gave the wrong result", what, m, ml_str(l).c_str());
                if (rp != wp) fail("type-mutation", "%s of mixin %d with %s gave the wrong mixin", what, m, ml_str(l).c_str());
                t.list = want;
            }
            tm_check(t, false);
        };
        switch (a1 % 6) {
        case 0: case 1: {
            bool lacking = a1 % 6 == 1;
            if (ml_n(l) >= 6) return false;
            if (by == 1) {
                // by name: looks in the domain
                bool safe = op.a[4] & 1;
                if (lacking && fi >= 0) {
                    ok = sut([&] { rp = safe ? tm.safe_add_if_lacking(name) : tm.add_if_lacking(name); });
                    res_known = false;
                    chk("add_if_lacking");
                    return true;
                }
                bool bad = false;
                Call c(RC_LOOKUP_MIX_NAME);
                ok = sut([&] {
                    if (safe) rp = lacking ? tm.safe_add_if_lacking(name) : tm.safe_add(name);
                    else if (lacking) rp = tm.add_if_lacking(name);
                    else rp = &tm.add(name);
                });
                bad = !ok && !rt::fault_fired();
                bool found = rp != nullptr;
                c.ret(ok || bad);
                c->name = std::string(name);
                c->b = found ? mix_index(rp) : -1;
                if (found && c->b < 0) fail("type-mutation", "an unknown mixin was added");
                if (ok && !found && !safe) fail("type-mutation", "adding by name returned nothing");
                c.fin();
                if (found) t.list = ml_add(l, mix_index(rp));
                tm_check(t, false);
                return true;
            }
            bool add = !lacking || i < 0;
            if (add) want = ml_add(l, m);
            if (by == 2) { ok = sut([&] { typed_tm(tm, lacking, m, r); }); wr = lacking ? i < 0 : true; }
            else if (by == 3) {
                ok = csut([&] { r = lacking ? dnmx_type_mutation_add_if_lacking(h, info) : dnmx_type_mutation_add(h, info); return true; });
                wr = add;
                if (!r && add && rt::fault_fired()) ok = false;
            }
            else { ok = sut([&] { if (lacking) r = tm.add_if_lacking(*info); else tm.add(*info); }); wr = lacking && add; }
            chk(lacking ? "add_if_lacking" : "add");
            return true;
        }
        case 2: { // remove
            int at = by == 1 || (by == 3 && (op.a[4] & 1)) ? fi : i;
            if (at >= 0) want = ml_erase(l, at);
            if (by == 1) { ok = sut([&] { rp = tm.remove(name); }); wp = at < 0 ? nullptr : W.mix[ml_at(l, at)]; res_known = false; }
            else if (by == 2) { ok = sut([&] { typed_tm(tm, 2, m, r); }); wr = at >= 0; }
            else if (by == 3) {
                if (op.a[4] & 1) { ok = csut([&] { rp = dnmx_type_mutation_remove_by_name(h, dnmx_sv::from_std(name)); return true; }); wp = at < 0 ? nullptr : W.mix[ml_at(l, at)]; res_known = false; }
                else { ok = csut([&] { r = dnmx_type_mutation_remove(h, info); return true; }); wr = at >= 0; }
            }
            else { ok = sut([&] { r = tm.remove(*info); }); wr = at >= 0; }
            chk("remove");
            return true;
        }
        case 3: { // to_back
            bool nm = by == 1 || (by == 3 && (op.a[4] & 1));
            int at = nm ? fi : i;
            must_fail = at < 0;
            if (at >= 0) { int x = ml_at(l, at); want = ml_add(ml_erase(l, at), x); wp = nm ? W.mix[x] : nullptr; }
            res_known = false;
            if (by == 1) ok = sut([&] { rp = &tm.to_back(name); });
            else if (by == 2) ok = sut([&] { typed_tm(tm, 3, m, r); });
            else if (by == 3 && nm) ok = csut([&] { rp = dnmx_type_mutation_to_back_by_name(h, dnmx_sv::from_std(name)); return rp != nullptr; });
            else if (by == 3) ok = csut([&] { return dnmx_type_mutation_to_back(h, info); });
            else ok = sut([&] { tm.to_back(*info); });
            chk("to_back");
            return true;
        }
        case 4: { // dedup
            want = 0;
            for (int k = 0; k < ml_n(l); ++k) {
                bool later = false;
                for (int j = k + 1; j < ml_n(l); ++j) if (ml_at(l, j) == ml_at(l, k)) later = true;
                if (!later) want = ml_add(want, ml_at(l, k));
            }
            if (by == 3) ok = csut([&] { dnmx_type_mutation_dedup(h); return true; });
            else ok = sut([&] { tm.dedup(); });
            res_known = false;
            chk("dedup");
            return true;
        }
        default: { // set
            ML nl = ML(op.a[4]);
            if (ml_n(nl) > 6 || !list_ok(nl)) return false;
            std::vector<const dx::mixin_info*> v;
            for (int k = 0; k < ml_n(nl); ++k) v.push_back(W.mix[ml_at(nl, k)]);
            ok = csut([&] { return dnmx_type_mutation_set_mixins(h, v.data(), dnmx_mixin_index_t(v.size())); });
            want = nl;
            res_known = false;
            chk("set_mixins");
            return true;
        }
        }
    }
    case O_TM_GET: {
        if (!t.alive || !request_allowed(t.list)) return false;
        ML req = t.list, l = 0, ev = 0;
        bool nodref = false;
        if (gcc()) { if (!eval_now(req, ev)) ev = 0; nodref = !pinned_type(ev); }
        const dx::type* ty = nullptr;
        Call c(RC_GET_TYPE);
        c->req = req;
        bool ok;
        if (t.is_c) {
            auto h = t.ptr->to_c_hanlde();
            ok = csut([&] { ty = dx::type::from_c_handle(dnmx_get_type(W.d0->to_c_hanlde(), &h)); return ty != nullptr; });
            if (h) fail("c-interface", "dnmx_get_type did not consume the type mutation");
        }
        else ok = sut([&] { ty = &W.d0->get_type(std::move(*t.ptr)); });
        c.ret(ok);
        if (ok) {
            l = nodref ? ev : read_type(*ty);
            c->list = l;
            c->type = row_of(*ty, l);
        }
        c.fin();
        if (t.is_c) t = TMModel();
        else tm_drop(t);
        return true;
    }
    default: return false;
    }
}

// ---- life of the world ----
static void dom_types_counts() { // numbers of objects
    if (!ds_single()) return;
    for (auto& x : ds().types) {
        if (x.second < 0) continue;
        size_t n = 0;
        for (auto& o : W.obj) if (o.alive && o.type == x.first) ++n;
        auto* t = ttab[size_t(x.second)].ptr;
        size_t got = 0, gotc = 0;
        sut([&] { got = t->num_objects(); gotc = dnmx_type_num_objects(t); });
        if (got != n || gotc != n) fail("object-count", "the type %s tells %lu objects, there are %lu", ml_str(x.first).c_str(), (unsigned long)got, (unsigned long)n);
    }
}

static bool fault_allowed(const Op& op) {
    switch (op.kind) {
    case O_MD_UNREG: case O_REM_RULE: case O_GC: case O_NUM: case O_LOOKUP: case O_OBJ_DEL: case O_OBJ_READ: case O_OBJ_SEAL: case O_OBJ_SETVAL: case O_TYPECHECK: case O_TM_QUERY: case O_TM_DROP: case O_UNREG_TC: return false;
    default: return true;
    }
}

void exec_op(const Op& op, int opidx, int statidx) {
    if (op.kind == O_NONE) return;
    rt::Fault f = op.fault;
    if (!fault_allowed(op)) f = rt::Fault();
    cur_op = opidx;
    cur_fault[rt::cur()] = f.kind;
    rt::op_begin(opidx, statidx, f);
    rt::trace(uint64_t(op.kind));
    ++rt::R->executed;
    bool done;
    switch (op.kind) {
    case O_TM_NEW: case O_TM_EDIT: case O_TM_GET: case O_TM_DROP: case O_TM_QUERY: done = exec_tm(op); break;
    case O_OBJ_NEW: case O_OBJ_DEL: case O_OBJ_MUTATE: case O_OBJ_MUT_TO: case O_OBJ_CLEAR: case O_OBJ_COPY: case O_OBJ_COPY_FROM: case O_OBJ_COPY_MATCH:
    case O_OBJ_MOVE_NEW: case O_OBJ_MOVE_ASGN: case O_OBJ_MOVE_MATCH: case O_OBJ_SEAL: case O_OBJ_SETVAL: case O_OBJ_CMP: case O_OBJ_MSG: case O_OBJ_READ: case O_TYPECHECK:
        if (gcc()) live_op(true);
        done = exec_object(op);
        if (gcc()) live_op(false);
        break;
    default: done = exec_domain(op);
    }
    rt::op_end();
    W.expect_obj[rt::cur()] = nullptr;
    if (!done) { skip(); return; }
    ++rt::R->kinds[op.kind];
    if (rt::fault_fired()) PROBE("a fault fired");
    if (!conc()) {
        snapshot_rec();
        sync_flags();
        check_all(rt::fault_fired() ? 1 : 0);
        dom_types_counts();
        uint64_t h = rt::R->state_hash;
        for (char ch : ds().key()) h = rt::mix(h, uint64_t(uint8_t(ch)));
        for (auto& o : W.obj) if (o.alive) { h = rt::mix(h, o.type); h = rt::mix(h, uint64_t(o.sealed)); }
        rt::R->state_hash = h;
    }
}

void world_init() {
    mixins_init();
    dx::domain_settings st{};
    st.canonicalize_types = W.cfg.canon;
    st.allow_duplicate_mixin_names = W.cfg.dup_mixins;
    st.allow_duplicate_feature_names = W.cfg.dup_features;
    void* mem = W.cfg.dom_c ? nullptr : rt::alloc(sizeof(dx::domain), alignof(dx::domain), P_WORLD);
    bool ok = sut([&] {
        if (W.cfg.dom_c) W.d0 = dx::domain::from_c_handle(dnmx_create_domain(dnmx_sv::from_std("dom0"), st, 0, nullptr));
        else W.d0 = new (mem) dx::domain("dom0", st, 0, nullptr, pool_alloc(W.cfg.dom_pool ? P_DOM : P_GLOBAL));
        dx::domain_settings s1{};
        s1.allow_duplicate_mixin_names = true;
        W.d1 = new (rt::alloc(sizeof(dx::domain), alignof(dx::domain), P_WORLD)) dx::domain("dom1", s1);
        W.d1->register_mixin(*W.mix[M_FOREIGN]);
        if (W.cfg.nest) { rt::HarnessScope hs; kids_init(); }
    });
    if (!ok || !W.d0) fail("spurious-failure", "the creation of a domain failed");
    DS.assign(1, DState());
    sync_flags();
}

// before the concurrent phase
static void prepare_concurrent() {
    int nf = W.cfg.nfibers;
    for (int i = 0; i < NOBJ; ++i) {
        auto& o = W.obj[i];
        o.owner = i >= 7 ? -1 : i % nf + 1;
        if (!o.alive) continue;
        bool bad = false;
        for (int k = 0; k < ml_n(o.type); ++k) { int ow = W.cfg.mix[ml_at(o.type, k)].owner; if (ow >= 0 && ow != o.owner) bad = true; }
        if (bad) { Op d; d.kind = O_OBJ_DEL; d.a[0] = i; exec_op(d, 99000 + i, -1); }
    }
    pinned.clear();
    for (auto& o : W.obj) if (o.alive && o.owner == -1 && ml_n(o.type)) pinned.push_back(o.type);
    if (W.cfg.gc_conc) live_start();
    for (int i = 0; i < NTM; ++i) {
        auto& t = W.tm[i];
        if (!t.alive) continue;
        bool bad = false;
        for (int k = 0; k < ml_n(t.list); ++k) { int ow = W.cfg.mix[ml_at(t.list, k)].owner; if (ow >= 0 && ow != i % nf + 1) bad = true; }
        if (bad) tm_drop(t);
    }
    sync_flags();
    start_feats = regf;
    used_feats = md_frozen = 0;
    for (int k = 0; k < NMD; ++k) if (regm >> (MD0 + k) & 1) md_frozen |= 1u << k;
    for (int f = 0; f < NF; ++f) if (feat_used(f)) used_feats |= 1u << f;
}

static void worker(int f) {
    auto& ops = W.plan->work[f];
    int base = int(W.plan->setup.size());
    for (int g = 1; g < f; ++g) base += int(W.plan->work[g].size());
    for (size_t i = 0; i < ops.size(); ++i) exec_op(ops[i], int(i), base + int(i));
}

void final_teardown() {
    rt::op_begin(200000, -1, rt::Fault());
    for (auto& t : W.tm) if (t.alive) { tm_check(t, true); tm_drop(t); }
    for (int i = 0; i < NOBJ; ++i) {
        if (!W.obj[i].alive) continue;
        verify_object(i, 2);
        Op d; d.kind = O_OBJ_DEL; d.a[0] = i;
        exec_object(d);
    }
    snapshot_rec();
    dom_types_counts();
    bool ok = sut([&] {
        if (W.cfg.dom_c) dnmx_destroy_domain(W.d0->to_c_hanlde());
        else W.d0->~domain();
        W.d1->~domain();
    });
    if (!ok) fail("domain-misc", "the destruction of a domain failed");
    for (auto& x : W.inst) {
        if (mcfg(x.second.mix).fn & FN_DESTROY) fail("not-destroyed", "instance %u of mixin %d was never destroyed", x.second.id, x.second.mix);
    }
    kids_end();
    mixins_teardown();
    rt::check_leaks(0xff & ~(1u << P_WORLD));
    rt::op_end();
}

void run_plan(const Plan& p) {
    W.plan = &p;
    W.cfg = p.cfg;
    rt::note_fill(p.cfg.fill, p.cfg.reuse);
    if (p.cfg.v1.on) { run_v1(p); return; }
    world_init();
    for (size_t i = 0; i < p.setup.size(); ++i) exec_op(p.setup[i], int(i), int(i));
    size_t nw = 0;
    if (p.cfg.nfibers) {
        prepare_concurrent();
        check_all(2);
        rt::run_workers(p.cfg.nfibers, worker);
        for (auto& w : p.work) nw += w.size();
        // the final state is a part of the history
        {
            Snapshot* s = new Snapshot();
            rt::op_begin(99500, -1, rt::Fault());
            Rec& r = hist_begin(RC_SNAPSHOT);
            take_snapshot(*s);
            r.snap = s;
            r.ok = true;
            hist_end(r);
            rt::op_end();
        }
        lin_check();
        sync_flags();
        check_all(2);
        dom_types_counts();
    }
    for (size_t i = 0; i < p.tail.size(); ++i) exec_op(p.tail[i], 100000 + int(i), int(p.setup.size() + nw + i));
    check_all(2);
    final_teardown();
}
