// Mixins which own objects: user code which uses the library, with a domain of its own, within calls of the library.
#include "world.h"
#include <dynamix/mutate.hpp>
#include <dynamix/mutate_ops.hpp>
#include <dynamix/mutate_to.hpp>
#include <dynamix/object_mutation.hpp>
#include <dynamix/type_mutation.hpp>
#include <string.h>

using rt::fail;
using rt::HarnessScope;
using rt::SutScope;

namespace {
constexpr int NK = 2;
dx::mixin_info* kinfo[NK];
struct KInst { int k, val; };
std::map<uintptr_t, KInst> kinst;
int kcount[rt::MAXF]; // living ones, by the fiber which made and destroyed them
constexpr int K_GONE = -99;

int kidx(const dx::mixin_info* i) {
    for (int k = 0; k < NK; ++k) if (kinfo[k] == i) return k;
    fail("callback-args", "a function of an inner mixin was called with an unknown info");
}
void kput(int k, void* p, int val) {
    if (!rt::addressable((char*)p - sizeof(void*), sizeof(void*) + kinfo[k]->size)) fail("mixin-place", "an inner mixin is constructed where it has no room");
    if (uintptr_t(p) % kinfo[k]->alignment) fail("mixin-place", "an inner mixin is constructed at an address which is not aligned to %d", int(kinfo[k]->alignment));
    if (kinst.count(uintptr_t(p))) fail("construct-over", "an inner mixin is constructed over a living one");
    rt::access(p, sizeof(int), true);
    memcpy(p, &val, sizeof val);
    kinst[uintptr_t(p)] = KInst{k, val};
    ++kcount[rt::cur()];
}
KInst& kneed(int k, const void* p, const char* what) {
    auto f = kinst.find(uintptr_t(p));
    if (f == kinst.end() || f->second.k != k) fail("dead-mixin", "%s with an inner mixin which is not living", what);
    int v;
    rt::access(p, sizeof v, false);
    memcpy(&v, p, sizeof v);
    if (v != f->second.val) fail("mixin-state", "%s: the state of an inner mixin is damaged", what);
    return f->second;
}
void kset(void* p, KInst& i, int val) {
    i.val = val;
    rt::access(p, sizeof val, true);
    memcpy(p, &val, sizeof val);
}
dnmx_error_return_t k_init(const dx::mixin_info* info, void* p) {
    HarnessScope hs;
    if (int f = rt::callback_event()) return raise_fault(f);
    kput(kidx(info), p, 0);
    return 0;
}
dnmx_error_return_t k_copy(const dx::mixin_info* info, void* p, const void* s) {
    HarnessScope hs;
    if (int f = rt::callback_event()) return raise_fault(f);
    kput(kidx(info), p, kneed(kidx(info), s, "copy construction").val);
    return 0;
}
dnmx_error_return_t k_casgn(const dx::mixin_info* info, void* p, const void* s) {
    HarnessScope hs;
    if (int f = rt::callback_event()) return raise_fault(f);
    int v = kneed(kidx(info), s, "copy assignment").val;
    kset(p, kneed(kidx(info), p, "copy assignment"), v);
    return 0;
}
void k_move(const dx::mixin_info* info, void* p, void* s) noexcept {
    HarnessScope hs;
    auto& i = kneed(kidx(info), s, "move construction");
    int v = i.val;
    kset(s, i, K_GONE);
    kput(kidx(info), p, v);
}
void k_masgn(const dx::mixin_info* info, void* p, void* s) noexcept {
    HarnessScope hs;
    auto& i = kneed(kidx(info), s, "move assignment");
    int v = i.val;
    kset(s, i, K_GONE);
    kset(p, kneed(kidx(info), p, "move assignment"), v);
}
void k_destroy(const dx::mixin_info* info, void* p) noexcept {
    HarnessScope hs;
    kneed(kidx(info), p, "destruction");
    kinst.erase(uintptr_t(p));
    --kcount[rt::cur()];
}
bool k_eq(const dx::mixin_info* info, const void* a, const void* b) noexcept {
    HarnessScope hs;
    int v = kneed(kidx(info), a, "equals").val;
    return v == kneed(kidx(info), b, "equals").val;
}
} // namespace

struct Kid {
    dx::object* o = nullptr;
    int n = 0;
    int list[NK];
    int val[NK];
    int way = 0;
};

namespace {
struct Quiet { // no faults: what may not fail
    Quiet() { rt::hold_faults(true); }
    ~Quiet() { rt::hold_faults(false); }
};
void* kid_mem() { return rt::alloc(sizeof(dx::object), alignof(dx::object), P_WORLD); }
void kid_free(dx::object* o) { rt::dealloc(o, rt::unknown, rt::unknown, P_WORLD); }
const dx::type& kid_type(const int* list, int n) { // in a SutScope
    const dx::mixin_info* l[NK];
    for (int i = 0; i < n; ++i) l[i] = kinfo[list[i]];
    if (!rt::concurrent() && n == 2 && list[0]) W.d1->garbage_collect_types();
    return W.d1->get_type(itlib::span<const dx::mixin_info* const>(l, size_t(n)));
}
void kid_fill(dx::object& o, const int* list, int n, int way) { // in a SutScope, o is empty
    switch (way) {
    case 0:
        if (n == 2) mutate(o, dx::add(*kinfo[list[0]]), dx::add(*kinfo[list[1]]));
        else if (n) mutate(o, dx::add(*kinfo[list[0]]));
        break;
    case 1: {
        dx::type_mutation tm(*W.d1);
        for (int i = 0; i < n; ++i) tm.add(*kinfo[list[i]]);
        o.reset_type(W.d1->get_type(std::move(tm)));
        break;
    }
    default: dx::object_mutation(o, kid_type(list, n)); // completes in the destructor
    }
}
}

void kid_check(const Kid& k, const char* where) {
    bool fine = true;
    void* p[NK] = {};
    {
        SutScope ss;
        auto& t = k.o->get_type();
        fine = int(t.num_mixins()) == k.n && &t.dom == W.d1 && k.o->empty() == !k.n;
        for (int i = 0; fine && i < k.n; ++i) {
            if (t.mixins[size_t(i)] != kinfo[k.list[i]]) fine = false;
            else p[i] = k.o->get(*kinfo[k.list[i]]);
        }
    }
    if (!fine) fail("object-state", "%s: an inner object has a wrong type", where);
    for (int i = 0; i < k.n; ++i) {
        if (!p[i]) fail("object-state", "%s: an inner object does not have its mixin", where);
        if (kneed(k.list[i], p[i], where).val != k.val[i]) fail("mixin-state", "%s: a mixin of an inner object has value %d instead of %d", where, kneed(k.list[i], p[i], where).val, k.val[i]);
        void* o;
        memcpy(&o, (char*)p[i] - sizeof o, sizeof o);
        if (o != k.o) fail("object-of", "%s: a mixin of an inner object does not know it", where);
    }
}

static void kid_failed(dx::object* o, bool made, int count) {
    if (made) {
        bool e;
        { SutScope ss; e = o->empty(); }
        if (!e) fail("object-state", "an inner object is not empty after its first mutation failed");
        { SutScope ss; o->~object(); }
    }
    kid_free(o);
    if (kcount[rt::cur()] != count) fail("not-destroyed", "mixins are left after the making of an inner object failed");
    PROBE("an inner object could not be made");
}

Kid* kid_new(int seed) {
    static const int lists[5][3] = {{1, 0}, {1, 1}, {2, 0, 1}, {2, 1, 0}, {0}};
    auto u = unsigned(seed);
    auto& l = lists[u % 5];
    int way = int(u / 5 % 4), count = kcount[rt::cur()];
    auto* mem = static_cast<dx::object*>(kid_mem());
    bool made = false;
    try {
        SutScope ss;
        if (way == 3) new (mem) dx::object(kid_type(l + 1, l[0]));
        else {
            new (mem) dx::object(*W.d1);
            made = true;
            kid_fill(*mem, l + 1, l[0], way);
        }
    }
    catch (...) {
        kid_failed(mem, made, count);
        throw;
    }
    if (kcount[rt::cur()] != count + l[0]) fail("object-state", "an inner object has %d mixins instead of %d", kcount[rt::cur()] - count, l[0]);
    PROBE("an inner object made by a mixin");
    auto* k = new Kid();
    k->o = mem;
    k->n = l[0];
    k->way = int(u / 20);
    for (int i = 0; i < k->n; ++i) { k->list[i] = l[i + 1]; k->val[i] = 0; }
    kid_check(*k, "a new inner object");
    for (int i = 0; i < k->n; ++i) {
        void* p;
        { SutScope ss; p = mem->get(*kinfo[k->list[i]]); }
        k->val[i] = seed + i + 1;
        kset(p, kneed(k->list[i], p, "use"), k->val[i]);
    }
    return k;
}

Kid* kid_copy(const Kid& s, int way) {
    kid_check(s, "copying");
    int count = kcount[rt::cur()];
    auto* mem = static_cast<dx::object*>(kid_mem());
    bool made = false;
    try {
        SutScope ss;
        if (way & 1) new (mem) dx::object(s.o->copy());
        else {
            new (mem) dx::object(*W.d1);
            made = true;
            mem->copy_from(*s.o);
        }
    }
    catch (...) {
        kid_failed(mem, made, count);
        throw;
    }
    auto* k = new Kid(s);
    k->o = mem;
    k->way = s.way + 1;
    PROBE("an inner object copied by a mixin");
    kid_check(*k, "a copied inner object");
    kid_check(s, "after copying");
    return k;
}

static void kid_reread(Kid& k) { // values after something failed half way
    for (int i = 0; i < k.n; ++i) {
        void* p;
        { SutScope ss; p = k.o->get(*kinfo[k.list[i]]); }
        if (p) k.val[i] = kneed(k.list[i], p, "use").val;
    }
    kid_check(k, "after a failed assignment");
}

void kid_assign(Kid& d, const Kid& s) {
    kid_check(d, "assigning");
    kid_check(s, "assigning");
    try { SutScope ss; d.o->copy_from(*s.o); }
    catch (...) { kid_reread(d); throw; }
    d.n = s.n;
    for (int i = 0; i < s.n; ++i) { d.list[i] = s.list[i]; d.val[i] = s.val[i]; }
    PROBE("an inner object assigned by a mixin");
    kid_check(d, "after assigning");
    kid_check(s, "after assigning");
}

Kid* kid_move(Kid& s) {
    kid_check(s, "moving");
    auto* k = new Kid(s);
    k->o = static_cast<dx::object*>(kid_mem());
    { SutScope ss; new (k->o) dx::object(std::move(*s.o)); }
    s.n = 0;
    kid_check(*k, "a moved inner object");
    kid_check(s, "an inner object which was moved from");
    PROBE("an inner object moved by a mixin");
    return k;
}

void kid_move_assign(Kid& d, Kid& s) {
    kid_check(d, "move assigning");
    kid_check(s, "move assigning");
    if (&d == &s) return;
    int count = kcount[rt::cur()] - d.n;
    { SutScope ss; *d.o = std::move(*s.o); }
    if (kcount[rt::cur()] != count) fail("not-destroyed", "the mixins of an inner object which was assigned to were not destroyed");
    d.n = s.n;
    for (int i = 0; i < s.n; ++i) { d.list[i] = s.list[i]; d.val[i] = s.val[i]; }
    s.n = 0;
    kid_check(d, "after move assigning");
    kid_check(s, "after move assigning");
}

bool kid_equal(const Kid& a, const Kid& b) {
    bool same = a.n == b.n, r;
    for (int i = 0; same && i < a.n; ++i) same = a.list[i] == b.list[i] && a.val[i] == b.val[i];
    { SutScope ss; r = a.o->equals(*b.o); }
    if (r != same) fail("compare", "two inner objects compare %s", r ? "equal" : "different");
    return same;
}

void kid_drop(Kid* k) { // in a destructor, maybe while an exception is in flight
    Quiet q;
    kid_check(*k, "destruction");
    int count = kcount[rt::cur()] - k->n;
    int way = k->way % 5;
    try {
        SutScope ss;
        switch (way) {
        case 1: k->o->clear(); break;
        case 2: if (k->n) mutate(*k->o, dx::remove(*kinfo[k->list[0]])); break;
        case 4: { int l[1] = {1}; dx::object_mutation(*k->o, kid_type(l, 1)); break; } // completes in the destructor
        default: break;
        }
    }
    catch (...) { fail("spurious-failure", "a mutation of an inner object within a destructor failed"); }
    int left = way == 1 ? 0 : way == 2 && k->n ? k->n - 1 : way == 4 ? 1 : k->n;
    if (kcount[rt::cur()] != count + left) fail("object-state", "an inner object has %d mixins instead of %d after a mutation within a destructor", kcount[rt::cur()] - count, left);
    bool full;
    { SutScope ss; full = int(k->o->num_mixins()) == left; }
    if (!full) fail("object-state", "an inner object has a wrong type after a mutation within a destructor");
    if (way == 2 || way == 4) PROBE("an inner object mutated within a destructor");
    if ((way == 2 || way == 4) && std::uncaught_exceptions()) PROBE("an inner object mutated within a destructor while an exception is in flight");
    { SutScope ss; k->o->~object(); }
    if (kcount[rt::cur()] != count) fail("not-destroyed", "mixins of an inner object were not destroyed with it");
    kid_free(k->o);
    delete k;
}

void kids_init() { // within the setup
    static const char* const names[NK] = {"kid0", "kid1"};
    for (int k = 0; k < NK; ++k) {
        auto* i = kinfo[k] = new (rt::alloc(sizeof(dx::mixin_info), 16, P_WORLD)) dx::mixin_info(dnmx_make_mixin_info());
        i->name = dnmx_sv::from_std(names[k]);
        i->set_size_alignment(k ? 48 : 4, k ? 32 : 4);
        i->init = k_init;
        i->copy_init = k_copy;
        i->move_init = k_move;
        i->copy_asgn = k_casgn;
        i->move_asgn = k_masgn;
        i->destroy = k_destroy;
        i->equals = k_eq;
        i->force_external = k && W.cfg.nest & 2;
    }
    SutScope ss;
    for (auto* i : kinfo) W.d1->register_mixin(*i);
}
void kids_request() { // by a rule, of the other domain
    int l[2] = {1, 0}, m[2] = {0, 1};
    Quiet q;
    const dx::type *a, *b;
    try {
        SutScope ss;
        kid_type(l, 2); // may collect
        a = &kid_type(m, 2);
        b = &kid_type(m, 2);
    }
    catch (...) { fail("spurious-failure", "a request to another domain failed within a rule"); }
    if (a != b) fail("type-query", "two requests to another domain within a rule give different types");
    if (&a->dom != W.d1 || a->num_mixins() != 2 || a->mixins[0] != kinfo[0] || a->mixins[1] != kinfo[1]) fail("type-query", "a request to another domain within a rule gives a wrong type");
}
void kids_end() { if (!kinst.empty()) fail("not-destroyed", "%d mixins of inner objects were never destroyed", int(kinst.size())); }
