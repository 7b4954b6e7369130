// A domain with many mixins, features, rules and long types, which lives for a moment: the main world is small, and so
// blind to what depends on sizes. Has its own model.
#include "exec.h"
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/mutate_to.hpp>
#include <algorithm>
#include <functional>
#include <memory>
#include <set>
#include <stdexcept>
#include <string.h>

using rt::fail;
using rt::HarnessScope;
using rt::SutScope;

namespace {
struct Rnd {
    uint64_t s;
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; }
    int below(int n) { return n > 0 ? int(next() % uint64_t(n)) : 0; }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int p) { return below(100) < p; }
    template <typename T> void shuffle(std::vector<T>& v) { for (int i = int(v.size()) - 1; i > 0; --i) std::swap(v[size_t(i)], v[size_t(below(i + 1))]); }
};
typedef std::vector<int> L;

enum { LACK_INIT = 1, LACK_COPY = 2, LACK_ASGN = 4, LACK_EQ = 8, LACK_MOVE = 16, LACK_MASGN = 32 };
struct CMix {
    dx::mixin_info* info;
    dx::feature_for_mixin* fm;
    L feats; // in order
    std::string name;
    int size, align, prio, lack = 0;
    bool ext = false, dep = false, owner = false;
    int id = -1;
};
struct CFeat {
    dx::feature_info* info;
    std::string name;
    bool allow, dflt;
    int id = -1;
};
struct CRule { int a, b; dx::mutation_rule_info* info; bool on = false; };
struct CType { const dx::type* t; uint64_t serial; };
struct CObj;
struct CInst { int m, val; CObj* kid = nullptr; };
struct CObj {
    dx::object* o = nullptr;
    const dx::type* t = nullptr; // null: the empty type
    L type;
    std::vector<int> val;
};
struct Crowd {
    std::vector<CMix> mix;
    std::vector<CFeat> feat;
    std::vector<CRule> rule;
    L byid, fbyid;
    dx::domain* d = nullptr;
    bool canon = false;
    std::map<L, CType> types;
    bool sure = true; // all types are known
    std::vector<CObj> obj;
    std::map<uintptr_t, CInst> inst;
    int raised = 0, rules_called = 0;
    unsigned turn = 0;
    L kid_req; // the type of the objects which some mixins own
    std::vector<CObj*> kids;
    const dx::type* many_of = nullptr; // a type which many objects have
    int many = 0;
    std::set<L> asked; // requests which were granted since the rules changed
};
Crowd* C;
constexpr int GONE = -77, NEW = 5;

int midx(const dx::mixin_info* i) {
    size_t m = size_t(i->user_data);
    if (m >= C->mix.size() || C->mix[m].info != i) fail("callback-args", "a mixin function was called with an unknown info");
    return int(m);
}
int value_of(int m) { return m * 8 + 3; }
void cput(int m, void* p, int val) {
    auto& x = C->mix[size_t(m)];
    if (!rt::addressable((char*)p - sizeof(void*), sizeof(void*) + size_t(x.size))) fail("mixin-place", "one of many mixins is constructed where it has no room");
    if (x.align && uintptr_t(p) % unsigned(x.align)) fail("mixin-place", "one of many mixins is constructed at an address which is not aligned to %d", x.align);
    if (C->inst.count(uintptr_t(p))) fail("construct-over", "one of many mixins is constructed over a living one");
    if (x.size >= 4) { rt::access(p, 4, true); memcpy(p, &val, 4); }
    C->inst[uintptr_t(p)] = CInst{m, val, nullptr};
}
CInst& cneed(int m, const void* p, const char* what) {
    auto f = C->inst.find(uintptr_t(p));
    if (f == C->inst.end() || f->second.m != m) fail("dead-mixin", "%s with one of many mixins which is not living", what);
    if (C->mix[size_t(m)].size >= 4) {
        int v;
        rt::access(p, 4, false);
        memcpy(&v, p, 4);
        if (v != f->second.val) fail("mixin-state", "%s: the state of one of many mixins is damaged", what);
    }
    return f->second;
}
void cset(void* p, CInst& i, int val) {
    i.val = val;
    if (C->mix[size_t(i.m)].size >= 4) { rt::access(p, 4, true); memcpy(p, &val, 4); }
}
int cfault() {
    int f = rt::callback_event();
    if (!f) return 0;
    ++C->raised;
    return raise_fault(f);
}
// objects of the same domain which mixins own
CObj* kid_new();
CObj* kid_copy(const CObj& k);
void kid_assign(CObj*& k, const CObj* s);
void kid_drop(CObj* k);
dnmx_error_return_t c_init(const dx::mixin_info* i, void* p) {
    HarnessScope hs;
    if (int e = cfault()) return e;
    int m = midx(i);
    CObj* k = C->mix[size_t(m)].owner ? kid_new() : nullptr;
    cput(m, p, value_of(m));
    C->inst[uintptr_t(p)].kid = k;
    return 0;
}
dnmx_error_return_t c_copy(const dx::mixin_info* i, void* p, const void* s) {
    HarnessScope hs;
    if (int e = cfault()) return e;
    auto& x = cneed(midx(i), s, "copy construction");
    CObj* k = x.kid ? kid_copy(*x.kid) : nullptr;
    cput(midx(i), p, cneed(midx(i), s, "copy construction").val);
    C->inst[uintptr_t(p)].kid = k;
    return 0;
}
dnmx_error_return_t c_casgn(const dx::mixin_info* i, void* p, const void* s) {
    HarnessScope hs;
    if (int e = cfault()) return e;
    auto &x = cneed(midx(i), s, "copy assignment"), &y = cneed(midx(i), p, "copy assignment");
    if (&x != &y) kid_assign(y.kid, x.kid);
    cset(p, y, x.val);
    return 0;
}
void c_move(const dx::mixin_info* i, void* p, void* s) noexcept {
    HarnessScope hs;
    auto& x = cneed(midx(i), s, "move construction");
    int v = x.val;
    CObj* k = x.kid;
    x.kid = nullptr;
    cset(s, x, GONE);
    cput(midx(i), p, v);
    C->inst[uintptr_t(p)].kid = k;
}
void c_masgn(const dx::mixin_info* i, void* p, void* s) noexcept {
    HarnessScope hs;
    auto& x = cneed(midx(i), s, "move assignment");
    auto& y = cneed(midx(i), p, "move assignment");
    int v = x.val;
    std::swap(x.kid, y.kid);
    cset(s, x, GONE);
    cset(p, y, v);
}
void c_destroy(const dx::mixin_info* i, void* p) noexcept {
    HarnessScope hs;
    CObj* k = cneed(midx(i), p, "destruction").kid;
    C->inst.erase(uintptr_t(p));
    if (k) kid_drop(k);
}
bool c_eq(const dx::mixin_info* i, const void* a, const void* b) noexcept { HarnessScope hs; int v = cneed(midx(i), a, "equals").val; return v == cneed(midx(i), b, "equals").val; }
int c_cmp(const dx::mixin_info* i, const void* a, const void* b) noexcept { HarnessScope hs; int v = cneed(midx(i), a, "compare").val, w = cneed(midx(i), b, "compare").val; return v < w ? -3 : v > w ? 3 : 0; }
dnmx_error_return_t c_func(dnmx_mutate_func_args a) {
    HarnessScope hs;
    if (int e = cfault()) return e;
    CObj* k = C->mix[size_t(midx(a.info))].owner ? kid_new() : nullptr;
    cput(midx(a.info), a.mixin_buf, int(a.user_data));
    C->inst[uintptr_t(a.mixin_buf)].kid = k;
    return 0;
}
dnmx_error_return_t c_update(dnmx_mutate_func_args a) {
    HarnessScope hs;
    if (int e = cfault()) return e;
    auto st = dx::type::from_c_handle(a.source_type);
    if (!st || a.source_index >= st->mixins.size() || st->mixins[a.source_index] != a.info) fail("callback-args", "a common mixin is updated with the wrong index in the old type");
    cset(a.mixin_buf, cneed(midx(a.info), a.mixin_buf, "update"), int(a.user_data));
    return 0;
}
dnmx_error_return_t c_rule(dnmx_type_mutation_handle h, uintptr_t ud) {
    const CRule* r;
    { HarnessScope hs; if (int e = cfault()) return e; ++C->rules_called; r = &C->rule[size_t(ud)]; }
    auto& tm = *dx::type_mutation::from_c_handle(h);
    if (tm.has(*C->mix[size_t(r->a)].info)) tm.add_if_lacking(*C->mix[size_t(r->b)].info);
    return 0;
}

// a call of the library. A failure is fine if it must fail or if a fault happened during it
bool call(bool must_fail, bool c, const char* what, const std::function<bool()>& f, bool may_fail = false) {
    bool before = rt::fault_fired();
    int raised = C->raised;
    bool ok = c ? ex::csut([&] { return f(); }) : ex::sut([&] { f(); });
    bool excused = may_fail || (rt::fault_fired() && (!before || ex::cur_fault[rt::cur()] == rt::Fault::alloc_from));
    if (ok && C->raised != raised) fail("swallowed-error", "many mixins: %s succeeded although a user function which it called failed", what);
    if (ok && must_fail) fail("missed-failure", "many mixins: %s succeeded, but it had to fail", what);
    if (!ok && rt::fault_fired()) C->sure = false; // a type may have been made
    if (!ok && !must_fail && !excused) fail("spurious-failure", "many mixins: %s failed for no reason", what);
    return ok;
}
template <typename F> void quiet(F&& f) { // what may not fail
    SutScope ss;
    f();
}

bool in(const L& l, int m) { return std::find(l.begin(), l.end(), m) != l.end(); }
int find(const L& l, int m) { auto f = std::find(l.begin(), l.end(), m); return f == l.end() ? -1 : int(f - l.begin()); }
bool less(int a, int b) {
    auto &x = C->mix[size_t(a)], &y = C->mix[size_t(b)];
    return x.prio != y.prio ? x.prio < y.prio : x.name < y.name;
}
const dx::mixin_info* inf(int m) { return C->mix[size_t(m)].info; }

struct P { int idx, bid, prio; };
std::vector<P> provs(const L& l, int f) {
    HarnessScope hs;
    std::vector<P> r;
    for (size_t i = 0; i < l.size(); ++i) {
        auto& x = C->mix[size_t(l[i])];
        for (size_t k = 0; k < x.feats.size(); ++k) if (x.feats[k] == f) r.push_back({int(i), x.fm[k].bid, x.fm[k].priority});
    }
    std::sort(r.begin(), r.end(), [](const P& a, const P& b) { return a.bid != b.bid ? a.bid > b.bid : a.prio != b.prio ? a.prio < b.prio : a.idx > b.idx; });
    return r;
}
// the type of a request, false: it must fail
bool eval(const L& req, L& out) {
    HarnessScope hs;
    out.clear();
    for (int m : req) if (!C->mix[size_t(m)].dep) out.push_back(m);
    for (auto& r : C->rule) if (r.on && in(out, r.a) && !in(out, r.b)) out.push_back(r.b);
    if (C->canon) std::stable_sort(out.begin(), out.end(), less);
    for (size_t i = 0; i < out.size(); ++i) {
        if (C->mix[size_t(out[i])].id < 0) return false;
        for (size_t k = i + 1; k < out.size(); ++k) if (out[i] == out[k]) return false;
    }
    for (size_t f = 0; f < C->feat.size(); ++f) {
        if (C->feat[f].allow) continue;
        auto p = provs(out, int(f));
        for (size_t i = 1; i < p.size(); ++i) if (p[i].bid == p[i - 1].bid && p[i].prio == p[i - 1].prio) return false;
    }
    return true;
}
int cmp_types(const L& a, const L& b) {
    for (size_t i = 0;; ++i) {
        if (i == a.size()) return i == b.size() ? 0 : -1;
        if (i == b.size()) return 1;
        if (a[i] != b[i]) return less(a[i], b[i]) ? -1 : 1;
    }
}
bool every(const L& l, int lack) { for (int m : l) if (C->mix[size_t(m)].lack & lack) return false; return true; }

#define TQ(cond, ...) do { if (!(cond)) { HarnessScope _h; fail("type-query", "many mixins: " __VA_ARGS__); } } while (0)
void check_type(const dx::type& t, const L& l, Rnd& r) {
    SutScope ss;
    TQ(t.mixins.size() == l.size() && t.num_mixins() == l.size(), "a type has %d mixins instead of %d", int(t.mixins.size()), int(l.size()));
    for (size_t i = 0; i < l.size(); ++i) TQ(t.mixins[i] == inf(l[i]), "a type has a wrong mixin at %d", int(i));
    auto h = static_cast<dnmx_type_handle>(&t);
    for (size_t m = 0; m < C->mix.size(); ++m) {
        auto& x = C->mix[m];
        int i = x.id < 0 ? -1 : find(l, int(m));
        TQ(t.has(*x.info) == (i >= 0) && t.lacks(*x.info) == (i < 0), "a type is wrong about having a mixin with id %d", x.id);
        TQ(t.index_of(x.info->id) == (i < 0 ? dx::invalid_mixin_index : dx::mixin_index_t(i)), "a type is wrong about the index of a mixin with id %d", x.id);
        TQ(dnmx_type_has(h, x.info) == (i >= 0) && dnmx_type_index_of(h, x.info) == (i < 0 ? dnmx_invalid_mixin_index : dnmx_mixin_index_t(i)), "a type is wrong in C about a mixin with id %d", x.id);
    }
    for (int k = 0; k < 4; ++k) {
        int m = r.below(int(C->mix.size())), i = find(l, m);
        TQ(t.has(C->mix[size_t(m)].name) == (i >= 0) && dnmx_type_has_by_name(h, dnmx_sv::from_std(C->mix[size_t(m)].name)) == (i >= 0) && dnmx_type_index_of_name(h, dnmx_sv::from_std(C->mix[size_t(m)].name)) == (i < 0 ? dnmx_invalid_mixin_index : dnmx_mixin_index_t(i)) && t.index_of(C->mix[size_t(m)].name) == (i < 0 ? dx::invalid_mixin_index : dx::mixin_index_t(i)), "a type is wrong about a mixin by name");
    }
    for (unsigned id = unsigned(C->byid.size()); id < C->byid.size() + 600; id += unsigned(r.range(1, 40))) TQ(!t.has(dx::mixin_id{id}) && t.index_of(dx::mixin_id{id}) == dx::invalid_mixin_index, "a type has a mixin with an id which there is not");
    for (size_t f = 0; f < C->feat.size(); ++f) {
        auto& x = C->feat[f];
        auto p = provs(l, int(f)); // (freed in the scope of the library, which is fine)
        auto e = t.ftable_at(x.info->id);
        TQ(t.implements_strong(*x.info) == !p.empty() && t.implements_strong(x.info->id) == !p.empty() && dnmx_type_implements_strong(h, x.info) == !p.empty(), "a type is wrong about a feature with id %d", x.id);
        TQ(t.implements(*x.info) == (x.dflt || !p.empty()) && dnmx_type_implements(h, x.info) == (x.dflt || !p.empty()), "a type is wrong about implementing a feature with id %d", x.id);
        if (r.chance(10)) TQ(t.implements_strong(x.name) == !p.empty(), "a type is wrong about a feature by name");
        if (p.empty()) { TQ(!e.begin && !e.end && !e.top_bid_back, "a type has an entry for a feature which it does not implement"); continue; }
        TQ(e.size() == p.size(), "a feature has %d providers instead of %d", int(e.size()), int(p.size()));
        size_t top = 0;
        for (size_t i = 0; i < p.size(); ++i) {
            auto& y = C->mix[size_t(l[size_t(p[i].idx)])];
            size_t k = size_t(find(y.feats, int(f)));
            TQ(e.begin[i].mixin_index == dx::mixin_index_t(p[i].idx) && e.begin[i].data == &y.fm[k] && e.begin[i].payload == y.fm[k].payload, "the providers of a feature are not in order (%d of %d)", int(i), int(p.size()));
            if (p[i].bid == p[0].bid) top = i;
        }
        TQ(e.top_bid_back == e.begin + top, "the greatest bid of a feature ends at the wrong provider");
        if (!r.chance(20)) continue;
        for (size_t i = 0; i < p.size(); ++i) {
            auto n = t.find_next_implementer(*x.info, *inf(l[size_t(p[i].idx)]));
            TQ(n == (i + 1 < p.size() ? e.begin + i + 1 : nullptr), "the next provider of a feature is wrong");
            size_t b = i;
            while (b < p.size() && p[b].bid == p[i].bid) ++b;
            size_t z = b;
            while (z < p.size() && p[z].bid == p[b].bid) ++z;
            auto s = t.find_next_bidder_set(*x.info, *inf(l[size_t(p[i].idx)]));
            TQ(s.size() == z - b && (s.empty() || s.data() == e.begin + b), "the next set of bidders of a feature is wrong");
        }
        int m = r.below(int(C->mix.size()));
        bool prov = in(l, m) && in(C->mix[size_t(m)].feats, int(f));
        if (!prov) TQ(!t.find_next_implementer(*x.info, *inf(m)) && t.find_next_bidder_set(*x.info, *inf(m)).empty(), "there is a provider after a mixin which is none");
    }
    TQ(!t.ftable_at(dx::feature_id{unsigned(C->fbyid.size() + 3)}), "a type has a feature which there is not");
    TQ(t.default_constructible() == every(l, LACK_INIT) && t.copy_constructible() == every(l, LACK_COPY) && t.copy_assignable() == every(l, LACK_ASGN), "what can be done with objects of a type is wrong");
    TQ(t.equality_comparable() == every(l, LACK_EQ) && t.comparable() == every(l, LACK_EQ), "whether objects of a type can be compared is wrong");
}
int count_of(const dx::type* t) { int n = t == C->many_of ? C->many : 0; for (auto& o : C->obj) if (o.o && o.t == t) ++n; for (auto* k : C->kids) if (k->t == t) ++n; return n; }
void check_counts(const char* where) {
    for (auto& t : C->types) {
        size_t n;
        quiet([&] { n = t.second.t->num_objects(); });
        if (int(n) != count_of(t.second.t)) fail("object-count", "many mixins, %s: a type has %d objects instead of %d", where, int(n), count_of(t.second.t));
    }
}
void check_obj(const CObj& x, const char* where) {
    bool fine = true;
    quiet([&] {
        fine = x.t ? &x.o->get_type() == x.t : &x.o->get_type() == &C->d->get_empty_type();
        fine = fine && x.o->num_mixins() == x.type.size() && x.o->empty() == x.type.empty();
    });
    if (!fine) fail("object-state", "many mixins, %s: an object has a wrong type", where);
    std::vector<std::pair<uintptr_t, uintptr_t>> place;
    for (size_t i = 0; i < x.type.size(); ++i) {
        int m = x.type[i];
        void *p = nullptr, *q = nullptr;
        const void* c = nullptr;
        quiet([&] { p = x.o->get(*inf(m)); q = x.o->get_at(dx::mixin_index_t(i)); c = dnmx_object_get(x.o->to_c_hanlde(), inf(m)); });
        if (!p || p != q || p != c) fail("object-query", "many mixins, %s: an object gives a wrong address for its mixin at %d", where, int(i));
        auto& y = cneed(m, p, where);
        if (y.val != x.val[i]) fail("mixin-state", "many mixins, %s: the mixin at %d has the value %d instead of %d", where, int(i), y.val, x.val[i]);
        void* o;
        rt::access((char*)p - sizeof o, sizeof o, false);
        memcpy(&o, (char*)p - sizeof o, sizeof o);
        if (o != x.o) fail("object-of", "many mixins, %s: a mixin does not know its object", where);
        place.push_back({uintptr_t(p) - sizeof o, uintptr_t(p) + size_t(C->mix[size_t(m)].size)});
    }
    std::sort(place.begin(), place.end());
    for (size_t i = 1; i < place.size(); ++i) if (place[i].first < place[i - 1].second) fail("mixin-place", "many mixins, %s: mixins of an object overlap", where);
    for (size_t m = 0; m < C->mix.size(); ++m) {
        if (in(x.type, int(m))) continue;
        bool none = true;
        quiet([&] { none = !x.o->has(*inf(int(m))) && !x.o->get(*inf(int(m))); });
        if (!none) fail("object-query", "many mixins, %s: an object has a mixin which its type does not have", where);
    }
}
void check_all(const char* where) {
    size_t n = 0;
    for (auto& o : C->obj) if (o.o) { check_obj(o, where); n += o.type.size(); }
    for (auto* k : C->kids) { check_obj(*k, where); n += k->type.size(); }
    if (C->inst.size() != n) fail("not-destroyed", "many mixins, %s: %d instances live instead of %d", where, int(C->inst.size()), int(n));
    check_counts(where);
}

int least_free(L& ids) { for (size_t i = 0; i < ids.size(); ++i) if (ids[i] < 0) return int(i); ids.push_back(-1); return int(ids.size()) - 1; }
#define DOMFAIL(cls, ...) do { HarnessScope _h; fail("domain: " cls, "many mixins: " __VA_ARGS__); } while (0)
void reg_feat_model(int f) {
    auto& x = C->feat[size_t(f)];
    x.id = least_free(C->fbyid);
    C->fbyid[size_t(x.id)] = f;
    if (x.info->id.i != unsigned(x.id)) DOMFAIL("register-feature", "a feature got the id %d instead of %d", int(x.info->id.i), x.id);
}
void reg_feat(int f, bool c) {
    auto& x = C->feat[size_t(f)];
    bool ok = call(x.id >= 0, c, "the registration of a feature", [&] {
        if (c) return !dnmx_register_feature(C->d->to_c_hanlde(), x.info);
        C->d->register_feature(*x.info);
        return true;
    });
    if (ok) reg_feat_model(f);
    else if (x.id < 0 && x.info->id.i != dnmx_invalid_id) DOMFAIL("register-feature", "a feature has an id although its registration failed");
}
void unreg_feat(int f, bool c) { // which no registered mixin has
    auto& x = C->feat[size_t(f)];
    call(x.id < 0, c, "the unregistration of a feature", [&] {
        if (c) dnmx_unregister_feature(C->d->to_c_hanlde(), x.info);
        else C->d->unregister_feature(*x.info);
        return true;
    });
    C->fbyid[size_t(x.id)] = -1;
    x.id = -1;
    if (x.info->id.i != dnmx_invalid_id) DOMFAIL("unregister-feature", "an unregistered feature has an id");
}
void reg_mix(int m, bool c) {
    auto& x = C->mix[size_t(m)];
    bool ok = call(x.id >= 0, c, "the registration of a mixin", [&] {
        if (c) return !dnmx_register_mixin(C->d->to_c_hanlde(), x.info);
        C->d->register_mixin(*x.info);
        return true;
    });
    if (x.id >= 0) return;
    bool rest = false;
    for (int f : x.feats) {
        auto& y = C->feat[size_t(f)];
        if (y.id >= 0) continue;
        if (y.info->id.i != dnmx_invalid_id) {
            if (rest) DOMFAIL("register-mixin", "the features of a mixin were not registered in order");
            reg_feat_model(f);
        }
        else {
            if (ok) DOMFAIL("register-mixin", "a feature of a registered mixin is not registered");
            rest = true;
        }
    }
    if (ok) {
        x.id = least_free(C->byid);
        C->byid[size_t(x.id)] = m;
        if (x.info->id.i != unsigned(x.id)) DOMFAIL("register-mixin", "a mixin got the id %d instead of %d", int(x.info->id.i), x.id);
        if (x.info->dom != C->d->to_c_hanlde()) DOMFAIL("register-mixin", "a registered mixin does not know its domain");
    }
    else if (x.info->id.i != dnmx_invalid_id || x.info->dom) DOMFAIL("register-mixin", "a mixin has an id or a domain although its registration failed");
}
void unreg_mix(int m, bool c) { // which no object has
    auto& x = C->mix[size_t(m)];
    call(x.id < 0, c, "the unregistration of a mixin", [&] {
        if (c) dnmx_unregister_mixin(C->d->to_c_hanlde(), x.info);
        else C->d->unregister_mixin(*x.info);
        return true;
    });
    C->byid[size_t(x.id)] = -1;
    x.id = -1;
    if (x.info->id.i != dnmx_invalid_id || x.info->dom) DOMFAIL("unregister-mixin", "an unregistered mixin has an id or a domain");
    for (auto i = C->types.begin(); i != C->types.end();) if (in(i->first, m)) i = C->types.erase(i); else ++i;
    for (auto i = C->asked.begin(); i != C->asked.end();) if (in(*i, m)) i = C->asked.erase(i); else ++i;
}
void check_ids() {
    quiet([&] {
        auto d = C->d;
        for (size_t i = 0; i < C->byid.size() + 70; i += i < C->byid.size() + 3 ? 1 : 17) {
            const dx::mixin_info* e = i < C->byid.size() && C->byid[i] >= 0 ? inf(C->byid[i]) : nullptr;
            if (d->get_mixin_info(dx::mixin_id{unsigned(i)}) != e || dnmx_get_mixin_info_by_id(d->to_c_hanlde(), dx::mixin_id{unsigned(i)}) != e) DOMFAIL("lookup", "the wrong mixin has the id %d", int(i));
        }
        for (size_t i = 0; i < C->fbyid.size() + 70; i += i < C->fbyid.size() + 3 ? 1 : 17) {
            const dx::feature_info* e = i < C->fbyid.size() && C->fbyid[i] >= 0 ? C->feat[size_t(C->fbyid[i])].info : nullptr;
            if (d->get_feature_info(dx::feature_id{unsigned(i)}) != e || dnmx_get_feature_info_by_id(d->to_c_hanlde(), dx::feature_id{unsigned(i)}) != e) DOMFAIL("lookup", "the wrong feature has the id %d", int(i));
        }
        for (size_t m = 0; m < C->mix.size(); m += 1 + m / 8) if (d->get_mixin_info(C->mix[m].name) != (C->mix[m].id >= 0 ? C->mix[m].info : nullptr)) DOMFAIL("lookup", "the wrong mixin has the name %s", C->mix[m].name.c_str());
        for (size_t f = 0; f < C->feat.size(); f += 1 + f / 8) if (d->get_feature_info(C->feat[f].name) != (C->feat[f].id >= 0 ? C->feat[f].info : nullptr)) DOMFAIL("lookup", "the wrong feature has the name %s", C->feat[f].name.c_str());
    });
}

// the type of a request was given; checks it and remembers it
void got_type(const dx::type& t, const L& l, const char* what) {
    const dx::type* empty = nullptr;
    bool own = false;
    quiet([&] { empty = &C->d->get_empty_type(); own = &t.dom == C->d; });
    if (!own) DOMFAIL("get-type", "%s gives a type of another domain", what);
    if (l.empty()) { if (&t != empty) DOMFAIL("get-type", "%s gives a new empty type", what); return; }
    auto f = C->types.find(l);
    if (f != C->types.end()) {
        if (f->second.t != &t) DOMFAIL("get-type", "%s gives another type of the same mixins", what);
        if (rt::serial_of(&t) != f->second.serial) DOMFAIL("get-type", "%s gives a type which is not there any more", what);
        return;
    }
    for (auto& x : C->types) if (x.second.t == &t) DOMFAIL("get-type", "%s gives a type of other mixins", what);
    C->types[l] = CType{&t, rt::serial_of(&t)};
}
const dx::type* request(const L& req, int how, L& out, Rnd& r) {
    bool must_fail = !eval(req, out);
    const dx::type* t = nullptr;
    std::unique_ptr<const dx::mixin_info*[]> q(new const dx::mixin_info*[req.size() + 1]);
    for (size_t i = 0; i < req.size(); ++i) q[i] = inf(req[i]);
    int before = C->rules_called, on = 0;
    for (auto& x : C->rule) on += x.on;
    bool ok = call(must_fail, how == 2 || how == 3, "a request for a type", [&] {
        switch (how) {
        case 0: t = &C->d->get_type(itlib::span<const dx::mixin_info* const>(q.get(), req.size())); break;
        case 1: {
            dx::type_mutation tm(*C->d, pool_alloc(P_OBJ2));
            for (size_t i = 0; i < req.size(); ++i) tm.add(*q[i]);
            t = &C->d->get_type(std::move(tm));
            break;
        }
        case 2: t = dx::type::from_c_handle(dnmx_get_type_from_infos(C->d->to_c_hanlde(), q.get(), uint32_t(req.size()))); break;
        default: {
            auto tm = dnmx_create_type_mutation_empty(C->d->to_c_hanlde());
            if (!tm) return false;
            bool all = true;
            for (size_t i = 0; i < req.size(); ++i) all = all && dnmx_type_mutation_add(tm, q[i]);
            if (!all) { dnmx_destroy_unused_type_mutation(tm); return false; }
            t = dx::type::from_c_handle(dnmx_get_type(C->d->to_c_hanlde(), &tm));
        }
        }
        return t != nullptr;
    });
    if (!ok) { if (rt::fault_fired()) C->sure = false; return nullptr; }
    if (C->asked.count(req) && C->rules_called != before) PROBE("many mixins: a stored request is evaluated again");
    if (on && C->rules_called > before && (C->rules_called - before) % on) fail("rule-order", "many mixins: a pass of the rules is not complete");
    C->asked.insert(req);
    if (out.size() > 32) PROBE("many mixins: a type of more than 32");
    got_type(*t, out, "a request");
    if (r.chance(60)) check_type(*t, out, r);
    return t;
}

L some(Rnd& r, int n, bool registered) {
    L all;
    for (size_t m = 0; m < C->mix.size(); ++m) if (!registered || C->mix[m].id >= 0) all.push_back(int(m));
    r.shuffle(all);
    if (n < int(all.size())) all.resize(size_t(n));
    return all;
}
int length(Rnd& r) { int n = int(C->mix.size()); return r.chance(25) ? r.range(0, 6) : r.chance(50) ? r.range(0, n) : r.range(n * 3 / 4, n); }
L a_request(Rnd& r) {
    if (!C->types.empty() && r.chance(35)) { // a known type, or nearly
        auto i = C->types.begin();
        std::advance(i, r.below(int(C->types.size())));
        L l = i->first;
        int k = r.below(4);
        if (k == 1 && !l.empty()) l.erase(l.begin() + r.below(int(l.size())));
        if (k == 2) for (int m : some(r, 2, true)) if (!in(l, m)) { l.push_back(m); break; }
        if (k == 3 && l.size() > 1) std::swap(l[size_t(r.below(int(l.size())))], l[size_t(r.below(int(l.size())))]);
        return l;
    }
    L l = some(r, length(r), r.chance(93));
    if (!r.chance(30)) std::sort(l.begin(), l.end());
    if (r.chance(4) && l.size() > 1) l[size_t(r.below(int(l.size())))] = l[size_t(r.below(int(l.size())))];
    return l;
}
void resync(CObj& x, const std::vector<int>* other, const L* otype) { // after a failed copy some mixins may have been assigned
    for (size_t i = 0; i < x.type.size(); ++i) {
        void* p = nullptr;
        quiet([&] { p = x.o->get_at(dx::mixin_index_t(i)); });
        if (!p) continue; // the check will tell
        int v = cneed(x.type[i], p, "after a failed copy").val, k = find(*otype, x.type[i]);
        if (v == x.val[i]) continue;
        if (k < 0 || v != (*other)[size_t(k)]) fail("mixin-state", "many mixins: a failed copy left a wrong value");
        x.val[i] = v;
    }
}
void set_type(CObj& x, const dx::type* t, const L& l) {
    std::vector<int> v;
    for (int m : l) { int k = find(x.type, m); v.push_back(k < 0 ? value_of(m) : x.val[size_t(k)]); }
    x.t = l.empty() ? nullptr : t;
    x.type = l;
    x.val = v;
}
bool new_lacks(const CObj& x, const L& l, int what) { for (int m : l) if (!in(x.type, m) && C->mix[size_t(m)].lack & what) return true; return false; }

CObj* kid_new() {
    L l;
    if (!eval(C->kid_req, l) || !every(l, LACK_INIT)) return nullptr;
    for (int m : l) if (C->mix[size_t(m)].owner) return nullptr;
    std::unique_ptr<CObj> k(new CObj());
    std::unique_ptr<const dx::mixin_info*[]> q(new const dx::mixin_info*[C->kid_req.size() + 1]);
    for (size_t i = 0; i < C->kid_req.size(); ++i) q[i] = inf(C->kid_req[i]);
    struct Mem { void* p; ~Mem() { if (p) rt::dealloc(p, rt::unknown, rt::unknown, P_WORLD); } } mem{rt::alloc(sizeof(dx::object), alignof(dx::object), P_WORLD)};
    const dx::type* t = nullptr;
    int how = int(C->turn++ % 3);
    L fn; // which get another value
    std::vector<dnmx_mutate_to_override> ov;
    std::vector<dnmx_mutate_op> ops;
    if (how) for (size_t i = 0; i < C->kid_req.size(); ++i) {
        int m = C->kid_req[i];
        bool f = (i + C->turn) % 2;
        if (f) fn.push_back(m);
        if (how == 1 && f) { dnmx_mutate_to_override o = {}; o.mixin = inf(m); o.init_new = c_func; o.user_data = uintptr_t(m * 3 + NEW); ov.push_back(o); }
        if (how == 2) { dnmx_mutate_op o = {}; o.op_type = dnmx_mutate_op_add; o.mixin = inf(m); if (f) o.init_override = c_func; o.user_data = uintptr_t(m * 3 + NEW); ops.push_back(o); }
    }
    {
        SutScope ss;
        k->o = new (mem.p) dx::object(*C->d, pool_alloc(P_OBJ3));
        struct G { dx::object* o; ~G() { if (o) o->~object(); } } g{k->o};
        if (how < 2) t = &C->d->get_type(itlib::span<const dx::mixin_info* const>(q.get(), C->kid_req.size()));
        if (how == 0) dx::mutate_to(*k->o, *t);
        else if (how == 1 ? dnmx_mutate_to(k->o->to_c_hanlde(), t, ov.data(), uint32_t(ov.size())) : dnmx_mutate(k->o->to_c_hanlde(), ops.data(), uint32_t(ops.size()))) throw std::runtime_error("the mutation of an inner object failed");
        t = &k->o->get_type();
        g.o = nullptr;
    }
    mem.p = nullptr;
    got_type(*t, l, "a request by a mixin");
    set_type(*k, t, l);
    for (int m : fn) { int i = find(l, m); if (i >= 0) k->val[size_t(i)] = m * 3 + NEW; }
    if (how == 2) PROBE("many mixins: a mixin mutated an object by operations");
    C->kids.push_back(k.get());
    PROBE("many mixins: a mixin made an object of its own domain");
    return k.release();
}
CObj* kid_copy(const CObj& s) {
    if (!every(s.type, LACK_COPY)) return nullptr;
    std::unique_ptr<CObj> k(new CObj(s));
    struct Mem { void* p; ~Mem() { if (p) rt::dealloc(p, rt::unknown, rt::unknown, P_WORLD); } } mem{rt::alloc(sizeof(dx::object), alignof(dx::object), P_WORLD)};
    { SutScope ss; k->o = new (mem.p) dx::object(s.o->copy(pool_alloc(P_OBJ3))); }
    mem.p = nullptr;
    C->kids.push_back(k.get());
    PROBE("many mixins: a mixin copied an object of its own domain");
    return k.release();
}
void kid_drop(CObj* k) {
    C->kids.erase(std::find(C->kids.begin(), C->kids.end(), k));
    dx::object* o = k->o;
    delete k;
    { SutScope ss; o->~object(); }
    rt::dealloc(o, rt::unknown, rt::unknown, P_WORLD);
}
void kid_assign(CObj*& k, const CObj* s) {
    if (!s) { if (k) kid_drop(k); k = nullptr; return; }
    if (!k) { k = kid_copy(*s); return; }
    for (int m : s->type) if (C->mix[size_t(m)].lack & (in(k->type, m) ? LACK_ASGN : LACK_COPY)) return;
    CObj old = *k;
    try { SutScope ss; k->o->copy_from(*s->o); }
    catch (...) { resync(*k, &s->val, &s->type); throw; }
    auto* o = k->o;
    *k = *s;
    k->o = o;
    PROBE("many mixins: a mixin assigned an object of its own domain");
}

void mutate_one(CObj& x, Rnd& r) {
    L l;
    int how = r.below(5);
    if (how < 4) {
        L req = a_request(r);
        auto t = request(req, r.below(4), l, r);
        if (!t) return;
        if (how < 3) {
            bool ok = call(new_lacks(x, l, LACK_INIT), how == 2, "a mutation", [&] {
                if (how == 0) dx::mutate_to(*x.o, *t);
                else if (how == 1) x.o->reset_type(*t);
                else return !dnmx_object_reset_type(x.o->to_c_hanlde(), t);
                return true;
            });
            if (ok) set_type(x, t, l);
            return;
        }
        // with many functions
        std::vector<dnmx_mutate_to_override> ov;
        L over = some(r, r.below(int(C->mix.size()) + 1), false);
        std::vector<int> what(C->mix.size(), 0);
        bool must_fail = false;
        for (int m : over) {
            dnmx_mutate_to_override o = {};
            what[size_t(m)] = r.range(1, 3);
            if (r.chance(80)) o.mixin = inf(m);
            else o.mixin_name = inf(m)->name;
            if (what[size_t(m)] & 1) o.init_new = c_func;
            if (what[size_t(m)] & 2) o.update_common = c_update;
            o.user_data = uintptr_t(m * 3 + NEW);
            ov.push_back(o);
        }
        if (r.chance(20)) for (int m : over) { // the first one counts
            dnmx_mutate_to_override o = {};
            o.mixin = inf(m);
            o.init_new = c_func;
            o.update_common = c_update;
            ov.push_back(o);
        }
        for (int m : l) if (!in(x.type, m) && !(what[size_t(m)] & 1) && C->mix[size_t(m)].lack & LACK_INIT) must_fail = true;
        CObj old = x;
        if (t == x.t) must_fail = false;
        bool ok = call(must_fail, true, "a mutation with functions", [&] { return !dnmx_mutate_to(x.o->to_c_hanlde(), t, ov.data(), uint32_t(ov.size())); });
        if (ok && ov.size() > 32 && l.size() > 32) PROBE("many mixins: a mutation with more than 32 functions");
        std::vector<int> upd = old.val;
        for (size_t i = 0; i < old.type.size(); ++i) if (what[size_t(old.type[i])] & 2 && in(l, old.type[i])) upd[i] = old.type[i] * 3 + NEW;
        if (ok) {
            if (t != x.t || l.empty()) set_type(x, t, l);
            for (size_t i = 0; i < l.size(); ++i) {
                bool was = in(old.type, l[i]);
                if (what[size_t(l[i])] & (was ? 2 : 1)) x.val[i] = l[i] * 3 + NEW;
            }
        }
        else resync(x, &upd, &old.type);
        return;
    }
    // a list of operations
    std::vector<dnmx_mutate_op> ops;
    L req = x.type;
    std::vector<int> fn(C->mix.size(), 0);
    L todo = some(r, r.below(int(C->mix.size()) + 1), true);
    for (int m : todo) {
        dnmx_mutate_op o = {};
        int k = find(req, m);
        if (r.chance(80)) o.mixin = inf(m);
        else o.mixin_name = inf(m)->name;
        if (k < 0) {
            o.op_type = dnmx_mutate_op_add;
            if (r.chance(50)) { o.init_override = c_func; o.user_data = uintptr_t(m * 3 + NEW); fn[size_t(m)] = 1; }
            req.push_back(m);
        }
        else {
            o.op_type = r.chance(60) ? dnmx_mutate_op_remove : dnmx_mutate_op_to_back;
            req.erase(req.begin() + k);
            if (o.op_type == dnmx_mutate_op_to_back) req.push_back(m);
        }
        ops.push_back(o);
    }
    bool must_fail = !eval(req, l);
    if (!must_fail) for (int m : l) if (!in(x.type, m) && !fn[size_t(m)] && C->mix[size_t(m)].lack & LACK_INIT) must_fail = true;
    CObj old = x;
    bool ok = call(must_fail, true, "a mutation by operations", [&] { return !dnmx_mutate(x.o->to_c_hanlde(), ops.data(), uint32_t(ops.size())); });
    const dx::type* t = nullptr;
    if (ok) {
        quiet([&] { t = &x.o->get_type(); });
        set_type(x, t, l);
        for (size_t i = 0; i < l.size(); ++i) if (!in(old.type, l[i]) && fn[size_t(l[i])]) x.val[i] = l[i] * 3 + NEW;
        if (ops.size() > 32) PROBE("many mixins: a mutation by more than 32 operations");
        got_type(*t, l, "a mutation by operations");
        C->asked.insert(req);
    }
    else {
        if (rt::fault_fired()) C->sure = false;
        if (must_fail) { L again; if (!eval(req, again)) return; request(req, 0, again, r); } // the type may have been made
    }
}
CObj* free_obj() { for (auto& o : C->obj) if (!o.o) return &o; return nullptr; }
CObj* live_obj(Rnd& r) {
    std::vector<CObj*> l;
    for (auto& o : C->obj) if (o.o) l.push_back(&o);
    return l.empty() ? nullptr : l[size_t(r.below(int(l.size())))];
}
void drop(CObj& x) {
    quiet([&] { x.o->~object(); });
    rt::dealloc(x.o, rt::unknown, rt::unknown, P_WORLD);
    x = CObj();
}
// an object becomes what one of its own mixins owns
void become_kid(CObj& x, CObj& k, Rnd& r) {
    if (r.chance(30)) { quiet([&] { k.o->clear(); }); set_type(k, nullptr, {}); }
    CObj y = k;
    if (r.chance(50)) {
        bool same = false;
        quiet([&] { same = x.o->get_allocator() == k.o->get_allocator(); });
        bool ok = call(!same, false, "a move from an object which a mixin of the target owns", [&] { *x.o = std::move(*k.o); return true; });
        if (!ok) return;
        PROBE("many mixins: a move from an object which a mixin of the target owns");
    }
    else {
        bool must_fail = false, c = r.chance(50);
        for (int m : y.type) if (C->mix[size_t(m)].lack & (in(x.type, m) ? LACK_ASGN : LACK_COPY)) must_fail = true;
        bool ok = call(must_fail, c, "a copy from an object which a mixin of the target owns", [&] {
            if (c) return !dnmx_object_copy_from(x.o->to_c_hanlde(), k.o->to_c_hanlde());
            x.o->copy_from(*k.o);
            return true;
        });
        if (!ok) { resync(x, &y.val, &y.type); return; }
        PROBE("many mixins: a copy from an object which a mixin of the target owns");
    }
    y.o = x.o;
    x = y;
}
void object_step(Rnd& r) {
    auto *x = live_obj(r), *n = free_obj();
    auto mem = [] { return rt::alloc(sizeof(dx::object), alignof(dx::object), P_WORLD); };
    int k = r.below(14);
    if (k > 9) k = k < 12 ? 4 : k == 12 ? 6 : 0;
    if (!x || (n && k == 0)) {
        void* p = mem();
        L l;
        const dx::type* t = nullptr;
        if (r.chance(50)) { t = request(a_request(r), 0, l, r); if (!t) l.clear(); }
        CObj y;
        bool ok = call(t && !every(l, LACK_INIT), false, "the creation of an object", [&] {
            if (t) y.o = new (p) dx::object(*t, pool_alloc(r.chance(25) ? P_OBJ3 : r.chance(50) ? P_OBJ1 : P_GLOBAL));
            else y.o = new (p) dx::object(*C->d, pool_alloc(P_OBJ1));
            return true;
        });
        if (!ok) { rt::dealloc(p, rt::unknown, rt::unknown, P_WORLD); return; }
        if (t) set_type(y, t, l);
        *n = y;
        return;
    }
    if (r.chance(15)) for (size_t i = 0; i < x->type.size(); ++i) {
        if (!C->mix[size_t(x->type[i])].owner) continue;
        void* p = nullptr;
        quiet([&] { p = x->o->get_at(dx::mixin_index_t(i)); });
        if (auto* y = cneed(x->type[i], p, "a look for an inner object").kid) { become_kid(*x, *y, r); return; }
    }
    switch (k) {
    case 1: drop(*x); return;
    case 2: {
        bool ok = call(false, true, "the clearing of an object", [&] { return dnmx_object_clear(x->o->to_c_hanlde()); });
        if (ok) set_type(*x, nullptr, {});
        return;
    }
    case 3: { // a copy
        if (!n) return;
        void* p = mem();
        CObj y = *x;
        bool ok = call(!every(x->type, LACK_COPY), false, "a copy of an object", [&] { y.o = new (p) dx::object(x->o->copy(pool_alloc(P_OBJ2))); return true; });
        if (!ok) { rt::dealloc(p, rt::unknown, rt::unknown, P_WORLD); return; }
        *n = y;
        return;
    }
    case 4: { // a copy to another object
        auto* y = live_obj(r);
        if (y == x) return;
        bool must_fail = false;
        for (int m : y->type) if (C->mix[size_t(m)].lack & (in(x->type, m) ? LACK_ASGN : LACK_COPY)) must_fail = true;
        bool c = r.chance(50);
        bool ok = call(must_fail, c, "the copying of an object", [&] {
            if (c) return !dnmx_object_copy_from(x->o->to_c_hanlde(), y->o->to_c_hanlde());
            x->o->copy_from(*y->o);
            return true;
        });
        if (ok && x->type.size() > 32 && y->type.size() > 32) PROBE("many mixins: a copy to an object of more than 32");
        if (ok) { auto* o = x->o; *x = *y; x->o = o; }
        else resync(*x, &y->val, &y->type);
        return;
    }
    case 5: { // a move
        if (!n) return;
        void* p = mem();
        quiet([&] { n->o = new (p) dx::object(std::move(*x->o)); });
        auto* o = n->o;
        *n = *x;
        n->o = o;
        set_type(*x, nullptr, {});
        return;
    }
    case 6: { // comparison
        if (x->type.size() > 32) PROBE("many mixins: a comparison of objects of more than 32");
        auto* y = live_obj(r);
        if (x->t && r.chance(60)) { // of nearly the same
            if (n && every(x->type, LACK_COPY)) {
                void* p = mem();
                CObj z = *x;
                bool ok = call(false, false, "a copy of an object", [&] { z.o = new (p) dx::object(x->o->copy()); return true; });
                if (!ok) { rt::dealloc(p, rt::unknown, rt::unknown, P_WORLD); return; }
                if (!z.type.empty() && r.chance(60)) {
                    size_t i = size_t(r.below(int(z.type.size())));
                    void* q = nullptr;
                    quiet([&] { q = z.o->get_at(dx::mixin_index_t(i)); });
                    cset(q, cneed(z.type[i], q, "setting a value"), z.val[i] + (r.chance(50) ? 1 : -1));
                    z.val[i] = C->inst[uintptr_t(q)].val;
                }
                *n = z;
                y = n;
            }
        }
        bool eq = false, ceq = false;
        int res = 0;
        quiet([&] { eq = x->o->equals(*y->o); ceq = dnmx_object_equals(x->o->to_c_hanlde(), y->o->to_c_hanlde()); });
        bool e = x == y || (x->t == y->t && every(x->type, LACK_EQ) && x->val == y->val);
        if (eq != e || ceq != e) fail("compare", "many mixins: objects are %sequal", e ? "not " : "");
        int want = x->t == y->t ? 0 : cmp_types(x->type, y->type);
        bool throws = false;
        if (x != y && x->t == y->t) for (size_t i = 0; i < x->type.size() && !want && !throws; ++i) {
            if (C->mix[size_t(x->type[i])].lack & LACK_EQ) throws = true;
            else want = x->val[i] < y->val[i] ? -1 : x->val[i] > y->val[i] ? 1 : 0;
        }
        bool ok = call(throws, false, "a comparison", [&] { res = x->o->compare(*y->o); return true; });
        if (ok && ((res < 0) != (want < 0) || (res > 0) != (want > 0))) fail("compare", "many mixins: objects compare as %d instead of %d", res, want);
        return;
    }
    default: mutate_one(*x, r);
    }
}
void edit_step(Rnd& r) { // of a list of many mixins
    L l;
    L start;
    const dx::type* base = nullptr;
    if (!C->types.empty() && r.chance(50)) { auto i = C->types.begin(); std::advance(i, r.below(int(C->types.size()))); start = i->first; base = i->second.t; }
    else start = {};
    l = start;
    const char* wrong = nullptr;
    std::vector<std::pair<int, int>> steps;
    for (int i = r.range(3, 60); i > 0; --i) steps.push_back({r.below(20), r.chance(50) && !l.empty() ? l[size_t(r.below(int(l.size())))] : r.below(int(C->mix.size()))});
    L add = some(r, length(r), true);
    int dup = r.below(4);
    bool to_type = r.chance(50);
    const dx::type* t = nullptr;
    L out;
    bool must_fail = false, asked = false;
    bool ok = call(false, false, "the editing of a list of mixins", [&] {
        auto same = [&](const dx::type_mutation& tm) { if (tm.mixins.size() != l.size()) return false; for (size_t i = 0; i < l.size(); ++i) if (tm.mixins[i] != inf(l[i])) return false; return true; };
        auto check = [&](bool c, const char* what) { if (!c && !wrong) wrong = what; };
        std::unique_ptr<dx::type_mutation> tm(base ? new dx::type_mutation(*base, pool_alloc(P_OBJ3)) : new dx::type_mutation(*C->d));
        check(same(*tm), "a new one is wrong");
        for (int m : add) {
            tm->add(*inf(m));
            HarnessScope hs;
            l.push_back(m);
        }
        check(same(*tm), "adding is wrong");
        if (dup) {
            tm->dedup();
            HarnessScope hs;
            L n;
            for (size_t i = 0; i < l.size(); ++i) if (std::find(l.begin() + long(i) + 1, l.end(), l[i]) == l.end()) n.push_back(l[i]);
            l = n;
        }
        check(same(*tm), "the removal of duplicates is wrong");
        for (auto& s : steps) {
            int m = s.second, k = find(l, m);
            auto& info = *inf(m);
            switch (s.first) {
            case 0: case 1: tm->add(info); { HarnessScope hs; l.push_back(m); } break;
            case 2: case 3: check(tm->add_if_lacking(info) == (k < 0), "adding what lacks is wrong"); if (k < 0) { HarnessScope hs; l.push_back(m); } break;
            case 4: case 5: case 6: check(tm->remove(info) == (k >= 0), "removing is wrong"); if (k >= 0) { HarnessScope hs; l.erase(l.begin() + k); } break;
            case 7: check((tm->remove(C->mix[size_t(m)].name) == &info) == (k >= 0), "removing by name is wrong"); if (k >= 0) { HarnessScope hs; l.erase(l.begin() + k); } break;
            case 8: case 9: case 10:
                if (k < 0) break;
                if (s.first == 8) tm->to_back(C->mix[size_t(m)].name); else tm->to_back(info);
                { HarnessScope hs; l.erase(l.begin() + k); l.push_back(m); }
                break;
            case 11: check((tm->has(C->mix[size_t(m)].name) == &info) == (k >= 0), "having by name is wrong"); break;
            case 12: if (!C->feat.empty()) {
                auto& f = C->feat[size_t(m) % C->feat.size()];
                bool has = false;
                { HarnessScope hs; for (int z : l) has = has || in(C->mix[size_t(z)].feats, int(size_t(m) % C->feat.size())); }
                check(tm->implements_strong(*f.info) == has && tm->implements(*f.info) == (has || f.dflt) && (tm->implements_strong(f.name) == f.info) == has, "a feature is wrong");
                break;
            }
            [[fallthrough]];
            default: check(tm->has(info) == (k >= 0) && tm->lacks(info) == (k < 0), "having is wrong");
            }
            check(same(*tm), "an edit is wrong");
        }
        if (to_type) {
            { HarnessScope hs; must_fail = !eval(l, out); asked = true; }
            int raised = C->raised;
            try { t = &C->d->get_type(std::move(*tm)); }
            catch (...) { HarnessScope hs; if (!must_fail) throw; C->raised = raised; }
        }
        return true;
    });
    if (wrong) fail("type-mutation", "many mixins: %s", wrong);
    if (!ok) { if (asked) C->sure = false; return; }
    if (to_type && must_fail && t) fail("missed-failure", "many mixins: a request for a type of an edited list succeeded, but it had to fail");
    if (t && out.size() > 32) PROBE("many mixins: an edited list of more than 32 becomes a type");
    if (t) { got_type(*t, out, "a request for a type of an edited list"); C->asked.insert(l); }
}
void collect() {
    quiet([&] { if (C->raised & 1) C->d->garbage_collect_types(); else dnmx_garbage_collect_types(C->d->to_c_hanlde()); });
    for (auto i = C->types.begin(); i != C->types.end();) if (!count_of(i->second.t)) i = C->types.erase(i); else ++i;
    C->sure = true;
    C->asked.clear();
}
// so many objects of a type, or additions of a rule, that a narrow counter does not tell
void many_objects(Rnd& r) {
    L l;
    auto t = request(some(r, r.range(0, 3), true), 0, l, r);
    if (!t || !every(l, LACK_INIT)) return;
    for (int m : l) if (C->mix[size_t(m)].owner || C->mix[size_t(m)].size > 64) return;
    int most = r.chance(95) ? r.range(254, 260) : 65540, turn = most > 60000 ? 65536 : 256;
    rt::allow_steps(uint64_t(most) * 1000);
    auto* o = static_cast<dx::object*>(rt::alloc(sizeof(dx::object) * size_t(most), alignof(dx::object), P_WORLD));
    if (!l.empty()) C->many_of = t;
    C->many = 0;
    auto check = [&](const char* when) {
        size_t n = 0;
        quiet([&] { n = t->num_objects(); });
        if (!l.empty() && int(n) != count_of(t)) fail("object-count", "many objects: %s a type has %d objects instead of %d", when, int(n), count_of(t));
    };
    bool ok = true;
    while (ok && C->many < most) {
        ok = call(false, false, "the creation of one of many objects", [&] { new (o + C->many) dx::object(*t); return true; });
        C->many += ok;
        if (ok && (C->many == turn || C->many == most)) {
            check("now");
            collect();
            check("after a collection");
            if (!l.empty()) got_type(*t, l, "a collection with many objects");
            PROBE("a collection while a type has many objects");
            if (turn > 256) PROBE("a collection while a type has more than 65535 objects");
        }
    }
    while (C->many > 0) {
        --C->many;
        quiet([&] { o[C->many].~object(); });
        if (C->many == most - turn || !C->many) check("at the end");
        if (C->many == most - turn && r.chance(50)) collect();
    }
    C->many_of = nullptr;
    rt::dealloc(o, rt::unknown, rt::unknown, P_WORLD);
}
void many_additions(CRule& x, Rnd& r) {
    int most = r.chance(98) ? r.range(254, 260) : 65540, n = 0;
    rt::allow_steps(uint64_t(most) * 1000);
    bool ok = true, was = x.on;
    while (ok && n < most) {
        ok = call(false, false, "one of many additions of a rule", [&] { C->d->add_mutation_rule(*x.info); return true; });
        n += ok;
    }
    x.on = was || n;
    if (n) C->asked.clear();
    size_t nr = 0, on = C->canon;
    quiet([&] { nr = C->d->num_mutation_rules(); });
    for (auto& y : C->rule) on += y.on;
    if (nr != on) DOMFAIL("num-rules", "there are %d rules instead of %d after many additions of one", int(nr), int(on));
    int seen = -1;
    if (call(false, false, "a traversal", [&] { dx::domain_traverse(*C->d).traverse_mutation_rules([&](const dx::mutation_rule_info& i, uint32_t c) { if (&i == x.info) seen = int(c); }); return true; }) && seen != n + was && (n || was)) DOMFAIL("rule-count", "a rule which was added %d times is shown with a count of %d", n + was, seen);
    L out;
    request(a_request(r), 0, out, r);
    for (; n > 0; --n) {
        quiet([&] { C->d->remove_mutation_rule(*x.info); nr = C->d->num_mutation_rules(); });
        if (nr != on - (n == 1 && !was)) DOMFAIL("num-rules", "there are %d rules instead of %d while one of them is removed as often as it was added", int(nr), int(on) - (n == 1 && !was));
        if (n > 1 && n % 256 == 1) request(a_request(r), 0, out, r);
    }
    if (x.on != was) { x.on = was; C->asked.clear(); }
    PROBE("a rule was added many times");
}
void check_domain(Rnd& r) {
    check_ids();
    size_t n = 0, nr = 0, nq = 0;
    quiet([&] { n = C->d->num_types(); nr = C->d->num_mutation_rules(); nq = C->d->num_type_queries(); });
    if (C->sure ? n != C->types.size() : n < C->types.size()) DOMFAIL("num-types", "there are %d types instead of %d", int(n), int(C->types.size()));
    size_t on = C->canon;
    for (auto& x : C->rule) on += x.on;
    if (nr != on) DOMFAIL("num-rules", "there are %d rules instead of %d", int(nr), int(on));
    if (!r.chance(40)) return;
    L mids, fids;
    std::set<const dx::type*> ts;
    size_t rules = 0, queries = 0;
    bool order = true;
    int last = INT32_MIN;
    bool ok = call(false, false, "a traversal", [&] {
        dx::domain_traverse tr(*C->d);
        tr.traverse_mixins([&](const dx::mixin_info& i) { HarnessScope hs; mids.push_back(midx(&i)); });
        tr.traverse_features([&](const dx::feature_info& i) { HarnessScope hs; fids.push_back(int(i.feature_class)); });
        tr.traverse_mutation_rules([&](const dx::mutation_rule_info& i, uint32_t c) { HarnessScope hs; ++rules; if (c != 1 || i.order_priority < last) order = false; last = i.order_priority; });
        tr.traverse_types([&](const dx::type& t) { HarnessScope hs; if (!ts.insert(&t).second) order = false; });
        tr.traverse_type_queries([&](itlib::span<const dx::mixin_info* const> q, const dx::type& t) { HarnessScope hs; ++queries; if (q.empty() && &t.dom != C->d) order = false; });
        return true;
    });
    if (!ok) return;
    std::sort(mids.begin(), mids.end());
    std::sort(fids.begin(), fids.end());
    L em, ef;
    for (int m : C->byid) if (m >= 0) em.push_back(m);
    for (int f : C->fbyid) if (f >= 0) ef.push_back(f);
    std::sort(em.begin(), em.end());
    std::sort(ef.begin(), ef.end());
    if (mids != em) fail("traverse", "many mixins: a traversal shows %d mixins instead of %d", int(mids.size()), int(em.size()));
    if (fids != ef) fail("traverse", "many mixins: a traversal shows %d features instead of %d", int(fids.size()), int(ef.size()));
    if (rules != on || !order) fail("traverse", "many mixins: a traversal shows %d rules instead of %d, or in a wrong order", int(rules), int(on));
    if (ts.size() != n || queries != nq) fail("traverse", "many mixins: a traversal shows %d types and %d requests instead of %d and %d", int(ts.size()), int(queries), int(n), int(nq));
    for (auto& t : C->types) if (!ts.count(t.second.t)) fail("traverse", "many mixins: a traversal does not show a type");
}
} // namespace

// leaves out the steps of the mask and has no more than the given number of mixins (if any), for small replays
void crowd(uint64_t seed, uint64_t left_out, int most) {
    Rnd r{seed * 0x2545f4914f6cdd1dull + 77};
    std::unique_ptr<Crowd> own(new Crowd());
    struct Reset { ~Reset() { C = nullptr; } } reset;
    C = own.get();
    int nm = r.chance(55) ? r.range(5, 40) : r.chance(70) ? r.range(41, 132) : r.range(133, 300);
    if (most && nm > most) nm = most;
    int nf = r.chance(50) ? r.range(1, 12) : r.chance(70) ? r.range(13, 70) : r.range(71, 280);
    int nr = r.chance(40) ? 0 : r.range(1, 20);
    auto* mi = static_cast<dx::mixin_info*>(rt::alloc(sizeof(dx::mixin_info) * size_t(nm), alignof(dx::mixin_info), P_WORLD));
    auto* fi = static_cast<dx::feature_info*>(rt::alloc(sizeof(dx::feature_info) * size_t(nf), alignof(dx::feature_info), P_WORLD));
    auto* ri = static_cast<dx::mutation_rule_info*>(rt::alloc(sizeof(dx::mutation_rule_info) * size_t(nr + 1), alignof(dx::mutation_rule_info), P_WORLD));
    C->mix.resize(size_t(nm));
    C->feat.resize(size_t(nf));
    C->rule.resize(size_t(nr));
    std::vector<void*> blocks = {mi, fi, ri};
    auto name_of = [&](const char* pre, int i) { return std::string(pre) + std::to_string((i * 7 + 3) % 1009); };
    for (int f = 0; f < nf; ++f) {
        auto& x = C->feat[size_t(f)];
        x.info = new (fi + f) dx::feature_info(dnmx_make_feature_info());
        x.name = name_of("f", f);
        x.allow = f % 4 == 0;
        x.dflt = r.chance(10);
        x.info->name = dnmx_sv::from_std(x.name);
        x.info->allow_clashes = x.allow;
        x.info->default_payload = x.dflt ? &x : nullptr;
        x.info->feature_class = uint64_t(f);
    }
    int lack = r.chance(50) ? 0 : 1 << r.below(4);
    bool mixed_prio = r.chance(40), clash = r.chance(15), deps = r.chance(30), owners = r.chance(40);
    std::string pre = r.chance(30) ? "a quite long prefix of the name of a mixin " : r.chance(25) ? std::string("m\0\xff", 3) : "m";
    if (pre.size() == 3) PROBE("many mixins: names with a zero");
    auto* names = static_cast<char*>(rt::alloc((pre.size() + 4) * size_t(nm), 1, P_WORLD));
    blocks.push_back(names);
    for (int m = 0; m < nm; ++m) {
        const int sizes[] = {4, 4, 4, 8, 12, 24, 32, 0, 1, r.chance(90) ? 100 : r.range(100, 5000)};
        static const int aligns[] = {4, 4, 4, 8, 16, 1, 2, 64};
        auto& x = C->mix[size_t(m)];
        x.info = new (mi + m) dx::mixin_info(dnmx_make_mixin_info());
        x.name = name_of(pre.c_str(), m);
        x.size = sizes[r.below(10)];
        x.align = x.size ? aligns[r.below(8)] : 0;
        if (x.align && x.size % x.align) x.size += x.align - x.size % x.align;
        x.prio = mixed_prio ? r.range(-2, 2) : 0;
        x.ext = r.chance(12);
        x.dep = deps && r.chance(8);
        x.owner = owners && r.chance(15);
        if (lack && r.chance(300 / nm + 1)) x.lack = lack;
        auto& i = *x.info;
        memcpy(names, x.name.data(), x.name.size()); // one after another: nothing ends a name
        i.name = dnmx_make_sv_len(names, x.name.size());
        names += x.name.size();
        i.set_size_alignment(dx::byte_size_t(x.size), dx::byte_size_t(x.align));
        i.user_data = uintptr_t(m);
        i.order_priority = x.prio;
        i.force_external = x.ext;
        i.dependency = x.dep;
        if (!(x.lack & LACK_INIT)) i.init = c_init;
        if (!(x.lack & LACK_COPY)) i.copy_init = c_copy;
        if (!(x.lack & LACK_ASGN)) i.copy_asgn = c_casgn;
        i.move_init = c_move;
        i.move_asgn = c_masgn;
        i.destroy = c_destroy;
        if (!(x.lack & LACK_EQ)) { i.compare = c_cmp; if (r.chance(50)) i.equals = c_eq; }
        int k = r.chance(60) ? r.range(0, 2) : r.chance(80) ? r.range(2, 8) : r.range(8, 40);
        std::set<int> fs;
        for (; k > 0; --k) fs.insert(r.chance(30) ? r.below(nf < 2 ? 1 : 2) : r.below(nf));
        x.feats.assign(fs.begin(), fs.end());
        r.shuffle(x.feats);
        if (x.feats.empty()) continue;
        x.fm = static_cast<dx::feature_for_mixin*>(rt::alloc(sizeof(dx::feature_for_mixin) * x.feats.size(), alignof(dx::feature_for_mixin), P_WORLD));
        blocks.push_back(x.fm);
        for (size_t n = 0; n < x.feats.size(); ++n) {
            auto* e = new (x.fm + n) dx::feature_for_mixin();
            auto& f = C->feat[size_t(x.feats[n])];
            e->info = f.info;
            e->payload = e;
            e->bid = r.chance(50) ? 0 : r.range(-2, 2);
            e->priority = f.allow ? (r.chance(50) ? 0 : r.range(-2, 2)) : clash && r.chance(2) ? 0 : nm / 2 - m * 3;
        }
        i.set_features({x.fm, x.feats.size()});
    }
    C->kid_req = some(r, r.range(0, 6), false);
    for (int k = 0; k < nr; ++k) { // what a rule adds is no sign for the rules before it: one pass settles
        auto& x = C->rule[size_t(k)];
        x.a = r.below(nm);
        for (int tries = 0; tries < 50; ++tries) {
            x.b = r.below(nm);
            bool fine = x.b != x.a;
            for (int z = 0; z < k; ++z) fine = fine && C->rule[size_t(z)].a != x.b;
            if (fine) break;
            x.b = -1;
        }
        if (x.b < 0) { x.b = x.a; }
        x.info = new (ri + k) dx::mutation_rule_info{dnmx_sv::from_std("r"), c_rule, uintptr_t(k), k * 2 - nr};
    }
    dx::domain_settings st = dx::domain_settings_builder().canonicalize_types(C->canon = r.chance(60)).allow_duplicate_mixin_names(r.chance(40)).allow_duplicate_feature_names(r.chance(20));
    void* dmem = rt::alloc(sizeof(dx::domain), alignof(dx::domain), P_WORLD);
    blocks.push_back(dmem);
    bool ok = call(false, false, "the creation of a domain", [&] { C->d = new (dmem) dx::domain("many", st, 0, nullptr, pool_alloc(r.chance(70) ? P_DOM : P_GLOBAL)); return true; });
    if (ok) {
        C->obj.resize(4);
        L order;
        for (int m = 0; m < nm; ++m) order.push_back(m);
        if (r.chance(50)) r.shuffle(order);
        for (int k = 0; k < nr; ++k) if (r.chance(70)) {
            auto& x = C->rule[size_t(k)];
            x.on = call(false, false, "the addition of a rule", [&] { C->d->add_mutation_rule(*x.info); return true; });
        }
        for (int k = r.chance(50) ? 0 : r.range(1, nf); k > 0; --k) { int f = r.below(nf); if (C->feat[size_t(f)].id < 0) reg_feat(f, r.chance(30)); }
        for (int m : order) if (!r.chance(5)) reg_mix(m, r.chance(30));
        check_domain(r);
        int steps = r.range(4, nm > 130 ? 14 : 24);
        for (int k = 0; k < steps; ++k) {
            if (left_out >> k & 1) continue;
            Rnd r{seed * 0x9e3779b97f4a7c15ull + uint64_t(k) * 0xd1342543de82ef95ull};
            int what = r.below(100);
            L out;
            if (what < 25) request(a_request(r), r.below(4), out, r);
            else if (what < 62) object_step(r);
            else if (what < 72) edit_step(r);
            else if (what < 74) collect();
            else if (what < 76) many_objects(r);
            else if (what < 80) { for (int n = r.range(1, 10); n > 0; --n) { int m = r.below(nm); if (r.chance(90) ? C->mix[size_t(m)].id < 0 : true) reg_mix(m, r.chance(30)); } }
            else if (what < 87) {
                for (int n = r.range(1, r.chance(30) ? nm / 2 : 8); n > 0; --n) {
                    int m = r.below(nm);
                    bool used = C->mix[size_t(m)].id < 0;
                    for (auto& o : C->obj) used = used || in(o.type, m);
                    for (auto* o : C->kids) used = used || in(o->type, m);
                    if (!used) unreg_mix(m, r.chance(30));
                }
            }
            else if (what < 90) {
                int f = r.below(nf);
                bool used = C->feat[size_t(f)].id < 0;
                for (auto& x : C->mix) used = used || (x.id >= 0 && in(x.feats, f));
                if (!used) unreg_feat(f, r.chance(30)); else reg_feat(f, r.chance(30));
            }
            else if (what < 91) many_objects(r);
            else if (what < 92) { // many types, some of which are asked for again
                rt::allow_steps(10000000);
                std::vector<L> done;
                for (int n = r.range(60, 300); n > 0; --n) {
                    L l = !done.empty() && r.chance(30) ? done[size_t(r.below(int(done.size())))] : some(r, r.range(1, 3), true);
                    request(l, r.below(4), out, r);
                    done.push_back(l);
                }
                PROBE("a domain with many types");
            }
            else if (what < 93 && nr) many_additions(C->rule[size_t(r.below(nr))], r);
            else if (what < 96 && nr) {
                auto& x = C->rule[size_t(r.below(nr))];
                if (x.on) { quiet([&] { C->d->remove_mutation_rule(*x.info); }); x.on = false; }
                else x.on = call(false, false, "the addition of a rule", [&] { C->d->add_mutation_rule(*x.info); return true; });
                C->asked.clear();
            }
            else if (C->types.size() > 1) { // the order of types
                auto i = C->types.begin(), j = C->types.begin();
                std::advance(i, r.below(int(C->types.size())));
                std::advance(j, r.below(int(C->types.size())));
                int c = 0;
                quiet([&] { c = i->second.t->compare(*j->second.t); });
                int e = cmp_types(i->first, j->first);
                if ((c < 0) != (e < 0) || (c > 0) != (e > 0)) fail("type-query", "many mixins: types compare as %d instead of %d", c, e);
            }
            check_all("after a step");
            if (r.chance(25)) check_domain(r);
        }
        check_domain(r);
        for (auto& t : C->types) if (r.chance(30)) check_type(*t.second.t, t.first, r);
        for (auto& o : C->obj) if (o.o) drop(o);
        check_all("at the end");
        if (r.chance(50)) { collect(); check_domain(r); }
        quiet([&] { C->d->~domain(); });
        PROBE("a domain of many mixins lived for a moment");
        if (nm > 64) PROBE("more than 64 mixins");
        if (nm > 256) PROBE("more than 256 mixins");
    }
    for (void* p : blocks) rt::dealloc(p, rt::unknown, rt::unknown, P_WORLD);
}
