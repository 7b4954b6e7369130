// Executor of operations: objects.
#include "exec.h"
#include <dynamix/mutate.hpp>
#include <dynamix/mutate_to.hpp>
#include <algorithm>
#include <memory>
#include <string.h>

using rt::fail;
using rt::HarnessScope;
using rt::SutScope;

namespace ex {
namespace {
enum { E_ADD, E_REMOVE, E_BACK, E_LACKING };
constexpr int64_t PRESENT = int64_t(1) << 28;

bool owner_slot(int slot) { return !conc() || W.obj[slot].owner == rt::cur(); }
bool free_slot(int slot) { return slot >= 0 && slot < NOBJ && !W.obj[slot].alive && owner_slot(slot); }

// the same, possibly while another exception is in flight
bool csut_maybe(bool in_flight, const std::function<bool()>& f) {
    bool ok = false;
    ++in_c[rt::cur()];
    if (!sut_maybe(in_flight, [&] { ok = f(); })) fail("c-interface", "an exception left a C function");
    --in_c[rt::cur()];
    return ok;
}

#define OQQ(cond, ...) do { if (!(cond)) { HarnessScope _h; fail("object-query", __VA_ARGS__); } } while (0)
#define OQ(cond, ...) do { if (!(cond)) { HarnessScope _h; fail("object-state", __VA_ARGS__); } } while (0)

// expectations for new mixins of an object
struct Exp {
    int how = H_DEFAULT, val = 0;
    uint32_t src = 0;
};
struct Expect {
    Exp e[NM];
    Expect() { for (int m = 0; m < NM; ++m) { e[m].how = H_DEFAULT; e[m].val = default_val(m); } }
};

struct Upd { int m, val; };
std::vector<Upd> updates[rt::MAXF]; // what the update callbacks of the current operation did

void set_val(ObjModel& o, int i, int val) {
    int m = ml_at(o.type, i);
    o.val[i] = val;
    if (o.id[i]) {
        auto* in = inst_at((void*)o.addr[i]);
        if (!in) fail("object-state", "the instance %u of mixin %d is not where it was", o.id[i], m);
        in->val = val;
    }
}

void check_placement(int slot) {
    auto& o = W.obj[slot];
    uintptr_t ibeg = 0;
    struct Span { uintptr_t b, e; int m; } sp[15];
    int n = ml_n(o.type);
    for (int i = 0; i < n; ++i) {
        int m = ml_at(o.type, i);
        auto c = mcfg(m);
        uintptr_t p = o.addr[i];
        uintptr_t b; size_t sz; int pool;
        if (!rt::block_of((void*)(p - 8), b, sz, pool)) fail("mixin-place", "mixin %d of an object is not in allocated memory", m);
        if (p + size_t(c.size) > b + sz) fail("mixin-place", "mixin %d of an object does not fit in its memory", m);
        size_t al = c.align ? size_t(c.align) : 1;
        if (p % al) fail("mixin-place", "mixin %d of an object is not aligned to %d", m, c.align);
        int want = o.pool;
        if (c.alloc) want = c.alloc == 1 ? P_MIXA : P_MIXB;
        if (pool != want) fail("mixin-place", "mixin %d of an object is in memory of pool %d instead of %d", m, pool, want);
        if (!c.external()) {
            if (ibeg && ibeg != b) fail("mixin-place", "internal mixins of an object are in different blocks");
            ibeg = b;
        }
        sp[i] = {p - 8, p + size_t(c.size), m};
        for (int k = 0; k < i; ++k) {
            if (sp[k].b < sp[i].e && sp[i].b < sp[k].e) fail("mixin-place", "mixins %d and %d of an object overlap", sp[k].m, m);
            if (c.external()) {
                uintptr_t b2; size_t s2; int p2;
                rt::block_of((void*)sp[k].b, b2, s2, p2);
                if (b2 == b) fail("mixin-place", "the external mixin %d shares memory with mixin %d", m, sp[k].m);
            }
        }
    }
}
} // namespace

void forget(ObjModel& o) {
    int ow = o.owner;
    o = ObjModel();
    o.owner = ow;
}

void verify_object(int slot, int level) {
    auto& o = W.obj[slot];
    auto& ob = *o.ptr;
    auto h = ob.to_c_hanlde();
    auto hc = static_cast<const dx::object&>(ob).to_c_hanlde();
    int n = ml_n(o.type);
    const dx::type* t = nullptr;
    {
        SutScope ss;
        t = &ob.get_type();
        OQ(static_cast<const void*>(dnmx_object_get_type(hc)) == static_cast<const void*>(t), "object %d: the C view of the type differs", slot);
    }
    ML l = read_type(*t);
    OQ(l == o.type, "object %d has a type with %s instead of %s", slot, ml_str(l).c_str(), ml_str(o.type).c_str());
    row_of(*t, l);
    {
        SutScope ss;
        OQ(ob.empty() == (n == 0), "object %d with %d mixins tells empty %d", slot, n, ob.empty());
        OQ(int(ob.num_mixins()) == n, "object %d tells the wrong number of mixins", slot);
        OQ(ob.sealed() == o.sealed, "object %d tells sealed %d", slot, ob.sealed());
        OQ(&ob.get_domain() == W.d0, "object %d tells the wrong domain", slot);
        OQ(ob.get_allocator() == pool_alloc(o.pool), "object %d tells the wrong allocator", slot);
    }
    for (int i = 0; i < n; ++i) {
        int m = ml_at(o.type, i);
        void* p;
        { SutScope ss; p = ob.get_at(dx::mixin_index_t(i)); }
        OQ(uintptr_t(p) == o.addr[i], "object %d: mixin %d moved although the object was not changed", slot, m);
        const dx::object* of;
        { SutScope ss; of = dx::object_of(static_cast<const void*>(p)); }
        if (of != &ob) fail("object-of", "mixin %d of object %d does not lead back to its object", m, slot);
        if (o.id[i]) {
            auto* in = inst_at(p);
            OQ(in && in->id == o.id[i] && in->mix == m, "object %d: the instance %u of mixin %d is not where it was", slot, o.id[i], m);
            OQ(!in->moved && in->val == o.val[i], "object %d: the value of mixin %d (instance %u) is %d instead of %d", slot, m, o.id[i], in->val, o.val[i]);
        }
        mix_verify(m, p, o.id[i], o.val[i], "in an object");
    }
    if (!level) return;
    {
        SutScope ss;
        OQQ(dnmx_object_is_empty(hc) == (n == 0) && int(dnmx_object_num_mixins(hc)) == n && dnmx_object_is_sealed(hc) == o.sealed && dnmx_object_get_domain(hc) == W.d0->to_c_hanlde(), "object %d: the C view differs", slot);
        OQQ(!ob.get_at(dx::mixin_index_t(n)) && !dnmx_object_get_at(hc, dx::mixin_index_t(n)), "object %d has a mixin after the last one", slot);
    }
    for (int m : SWEEP(NM)) {
        if (m == M_FOREIGN || !mix_ok(m)) continue;
        int i = ml_find(o.type, m), fi = first_named(o.type, W.mname[m]);
        void* want = i < 0 ? nullptr : (void*)o.addr[i];
        void* wn = fi < 0 ? nullptr : (void*)o.addr[fi];
        auto& info = *W.mix[m];
        std::string_view name = W.mname[m];
        const dx::object& co = ob;
        {
            SutScope ss;
            OQQ(ob.has(info) == (i >= 0) && ob.has(info.id) == (i >= 0) && dnmx_object_has(hc, &info) == (i >= 0), "object %d with %s tells wrongly whether it has mixin %d", slot, ml_str(l).c_str(), m);
            OQQ(ob.get(info) == want && ob.get(info.id) == want && co.get(info) == want && co.get(info.id) == want && dnmx_object_get(hc, &info) == want && dnmx_object_get_mut(h, &info) == want, "object %d with %s gives the wrong mixin %d", slot, ml_str(l).c_str(), m);
            OQQ(ob.has(name) == (fi >= 0) && dnmx_object_has_by_name(hc, dnmx_sv::from_std(name)) == (fi >= 0), "object %d tells wrongly whether it has a mixin named as mixin %d", slot, m);
            OQQ(ob.get(name) == wn && co.get(name) == wn && dnmx_object_get_by_name(hc, dnmx_sv::from_std(name)) == wn && dnmx_object_get_mut_by_name(h, dnmx_sv::from_std(name)) == wn, "object %d gives the wrong mixin for the name of mixin %d", slot, m);
            if (i >= 0) OQQ(dnmx_object_get_at(hc, dx::mixin_index_t(i)) == want && dnmx_object_get_mut_at(h, dx::mixin_index_t(i)) == want && co.get_at(dx::mixin_index_t(i)) == want && ob.unchecked_get_at(dx::mixin_index_t(i)) == want, "object %d gives the wrong mixin at %d", slot, i);
        }
        OQQ(typed_get(ob, m) == want && typed_has(ob, m) == (i >= 0), "object %d: the typed access of mixin %d is wrong", slot, m);
    }
    check_placement(slot);
    if (level >= 2) {
        check_type(*t, l, 1);
        for (int f : SWEEP(NF)) {
            if (!feat_ok(f)) continue;
            bool strong = !providers(l, f).empty(), byname = strong;
            for (int g = 0; g < NF; ++g) if (W.fname[g] == W.fname[f] && !providers(l, g).empty()) byname = true;
            SutScope ss;
            OQQ(dnmx_object_implements_strong_by_name(hc, dnmx_sv::from_std(W.fname[f])) == byname, "object %d tells wrongly whether it implements a feature named as feature %d", slot, f);
            OQQ(dnmx_object_implements_strong(hc, W.feat[f]) == strong, "object %d tells wrongly whether it implements feature %d", slot, f);
        }
        for (int c : SWEEP(NTC)) {
            if (W.cfg.tc[c].nofunc) continue;
            bool w = tc_model(c, l);
            SutScope ss;
            OQQ(ob.is_of(*W.tc[c]) == w, "object %d tells wrongly whether it is of type class %d", slot, c);
        }
    }
}

void check_all(int level) {
    int live = 0;
    for (int i = 0; i < NOBJ; ++i) {
        auto& o = W.obj[i];
        if (!o.alive) continue;
        verify_object(i, level);
        for (int k = 0; k < ml_n(o.type); ++k) if (o.id[k]) ++live;
    }
    if (live_instances() != live) {
        for (auto& x : W.inst) {
            bool f = false;
            for (auto& o : W.obj) if (o.alive) for (int k = 0; k < ml_n(o.type); ++k) if (o.id[k] == x.second.id) f = true;
            if (!f) fail("not-destroyed", "instance %u of mixin %d is living, but it is in no object", x.second.id, x.second.mix);
        }
        fail("not-destroyed", "%d mixins are living, but objects have %d", live_instances(), live);
    }
}

namespace {
// after a change of an object to a type with mixins l: finds the mixins and checks how they came to be
void settle(int slot, ML l, const Expect& x, uint32_t wm) {
    auto& o = W.obj[slot];
    auto& ob = *o.ptr;
    const dx::type* t;
    { SutScope ss; t = &ob.get_type(); }
    ML now = read_type(*t);
    OQ(now == l, "object %d has a type with %s instead of %s", slot, ml_str(now).c_str(), ml_str(l).c_str());
    ObjModel n = o;
    n.type = l;
    uint32_t last = wm;
    for (int i = 0; i < ml_n(l); ++i) {
        int m = ml_at(l, i);
        auto c = mcfg(m);
        void* p;
        { SutScope ss; p = ob.get_at(dx::mixin_index_t(i)); }
        n.addr[i] = uintptr_t(p);
        n.id[i] = 0;
        int oi = ml_find(o.type, m);
        auto* in = c.pod ? nullptr : inst_at(p);
        if (!c.pod) {
            if (!in || in->mix != m) fail("object-state", "object %d has no living instance of mixin %d", slot, m);
            n.id[i] = in->id;
        }
        if (oi >= 0) {
            if (!c.pod && in->id != o.id[oi]) fail("object-state", "mixin %d of object %d is instance %u, but it was %u before the change which keeps it", m, slot, in->id, o.id[oi]);
            n.val[i] = o.val[oi];
            if (!c.pod && in->val != o.val[oi]) fail("object-state", "the value of mixin %d (instance %u) of object %d is %d, but it was %d before the change which keeps it", m, in->id, slot, in->val, o.val[oi]);
            if ((c.external() || l == o.type) && n.addr[i] != o.addr[oi]) fail("mixin-place", "the address of the %smixin %d of object %d changed although it was kept", c.external() ? "external " : "", m, slot);
        }
        else {
            auto& e = x.e[m];
            n.val[i] = e.val;
            if (!c.pod) {
                if (in->id < wm) fail("object-state", "the new mixin %d of object %d is an old instance %u", m, slot, in->id);
                if (in->id < last) fail("object-state", "the new mixins of object %d were not constructed in order", slot);
                last = in->id;
                if (in->how != e.how || in->val != e.val) fail("wrong-init", "the new mixin %d of object %d was constructed in way %d with value %d instead of %d with %d", m, slot, in->how, in->val, e.how, e.val);
                if (e.src && in->src != e.src) fail("wrong-init", "the new mixin %d of object %d is a copy of instance %u instead of %u", m, slot, in->src, e.src);
            }
        }
    }
    o = n;
    verify_object(slot, 1);
}

// a new object
void born(int slot, dx::object* p, bool c, int pool) {
    auto& o = W.obj[slot];
    forget(o);
    o.alive = true;
    o.ptr = p;
    o.is_c = c;
    o.pool = pool;
}
void* obj_mem() { return rt::alloc(sizeof(dx::object), alignof(dx::object), P_WORLD); }
void obj_free(void* p) { rt::dealloc(p, rt::unknown, rt::unknown, P_WORLD); }

bool noinit_among(ML l, ML old, unsigned over) {
    for (int i = 0; i < ml_n(l); ++i) {
        int m = ml_at(l, i);
        if (ml_has(old, m) || (over >> m & 1)) continue;
        if (!(mcfg(m).fn & FN_INIT)) return true;
    }
    return false;
}

// a request which must not give a type that may disappear
bool request_safe(ML req) {
    if (!request_allowed(req)) return false;
    ML ev = 0;
    if (gcc() && eval_now(req, ev) && !pinned_type(ev)) return false;
    return true;
}

void unchanged(int slot) { verify_object(slot, 1); }

// applies what the callbacks which update common mixins did
void apply_updates(int slot) {
    auto& o = W.obj[slot];
    for (auto& u : updates[rt::cur()]) {
        int i = ml_find(o.type, u.m);
        if (i >= 0) o.val[i] = u.val;
    }
}

int update_slot[rt::MAXF];
void update_impl(const dx::mixin_info* info, void* buf, const dx::type* target, const dx::type* source, unsigned ti, unsigned si) {
    int m = mix_index(info);
    auto& o = W.obj[update_slot[rt::cur()]];
    if (m < 0) fail("callback-args", "an update function got an unknown mixin");
    int i = ml_find(o.type, m);
    if (i < 0) fail("callback-args", "an update function was called for mixin %d which was not in the object", m);
    if (uintptr_t(buf) != o.addr[i]) fail("callback-args", "an update function got the wrong address of mixin %d", m);
    if (!target || ti >= target->num_mixins() || target->mixins[ti] != info) fail("callback-args", "an update function got the wrong target index of mixin %d", m);
    if (!source || int(si) != i || si >= source->num_mixins() || source->mixins[si] != info) fail("callback-args", "an update function got the wrong source index of mixin %d", m);
    int v = 700 + m;
    updates[rt::cur()].push_back({m, v});
    if (o.id[i]) W.inst[o.addr[i]].val = v;
    mix_write(m, buf, o.id[i], v);
}
dnmx_error_return_t c_init_never(dnmx_mutate_func_args) {
    HarnessScope hs;
    fail("callback-args", "an operation which does not add a mixin used its initializer");
    return 0;
}
void update_cb(const dx::update_common_args& a) {
    HarnessScope hs;
    if (int k = rt::callback_event()) {
        user_throw(k);
    }
    update_impl(&a.info, a.mixin_buf, &a.target_type, &a.source_type, a.target_index, a.source_index);
}
dnmx_error_return_t c_update_cb(dnmx_mutate_func_args a) {
    HarnessScope hs;
    if (int k = rt::callback_event()) return raise_fault(k);
    update_impl(a.info, a.mixin_buf, dx::type::from_c_handle(a.target_type), dx::type::from_c_handle(a.source_type), a.target_index, a.source_index);
    return 0;
}
} // namespace

// ---- messages ----
namespace {
struct MsgRun {
    const std::vector<Prov>& pr;
    ML l;
    const ObjModel& o;
    int f, arg;
    std::vector<MsgLog> log;
    bool err = false;
    int run(int i) {
        int m = ml_at(l, pr[size_t(i)].idx);
        log.push_back({f, m, (void*)o.addr[pr[size_t(i)].idx], arg});
        int n = 0, N = int(pr.size());
        int s = i;
        while (s < N && pr[size_t(s)].bid == pr[size_t(i)].bid) ++s;
        int e = s;
        while (e < N && pr[size_t(e)].bid == pr[size_t(s)].bid) ++e;
        switch (arg >> 8) {
        case MSG_NEXT: if (i + 1 < N) n = run(i + 1); break;
        case MSG_NEXT_FORCE:
            if (i + 1 >= N) { err = true; return 0; }
            n = run(i + 1);
            break;
        case MSG_NEXT_SET:
            for (int k = e - 1; k >= s && !err; --k) n = run(k);
            break;
        case MSG_NEXT_TOP: if (s < N) n = run(s); break;
        case MSG_NEXT_SET_FORCE:
            if (s >= N) { err = true; return 0; }
            for (int k = e - 1; k >= s && !err; --k) n = run(k);
            break;
        case MSG_NEXT_TOP_FORCE:
            if (s >= N) { err = true; return 0; }
            n = run(s);
            break;
        default:;
        }
        if (err) return 0;
        return int((unsigned(msg_value(f, m, arg)) + 31u * unsigned(n)) & 0xffffff);
    }
};

bool exec_msg(const Op& op) {
    int slot = int(op.a[0]) % NOBJ, f = int(op.a[1]) & 3;
    int arg = int(op.a[2]);
    if (!usable(slot, false) || !feat_ok(f)) return false;
    arg = msg_arg((arg >> 8) % MSG_NMODES, arg & 255);
    int iface = int(op.a[3]) & 3;
    auto& o = W.obj[slot];
    auto pr = providers(o.type, f);
    MsgComb comb{iface == 2 && int(op.a[2]) & 1 ? 1 + (int(op.a[2]) >> 1 & 3) : 0, 0, {}};
    std::vector<int> results;
    size_t nres = 1;
    MsgRun r{pr, o.type, o, f, arg, {}, false};
    int want = 0;
    bool bad = false;
    if (pr.empty()) {
        if (f == 3) { r.log.push_back({3, -1, o.ptr, arg}); want = msg_default_value(3, arg); }
        else bad = true;
    }
    else if (iface != 2 && (f == 0 || f == 2)) want = r.run(0);
    else {
        int e = 0;
        while (e < int(pr.size()) && pr[size_t(e)].bid == pr[0].bid) ++e;
        nres = size_t(e);
        for (int k = e - 1; k >= 0 && !r.err; --k) {
            want = r.run(k);
            if (!r.err) results.push_back(want);
            if (int(results.size()) == comb.stop) break;
        }
    }
    if (pr.empty() && !bad) results.push_back(want);
    if (iface == 2) want = 0;
    if (r.err) bad = true;
    auto& log = msg_log[rt::cur()];
    log.clear();
    int got = 0;
    bool ok = sut([&] { got = call_msg(f, iface, *o.ptr, arg, comb); });
    bool cut = !ok && rt::fault_fired();
    if (ok) swallowed("a message");
    if (cut) { // up to the call which threw
        bad = true;
        if (log.size() < r.log.size()) r.log.resize(log.size());
        if (results.size() > comb.got.size()) results.resize(comb.got.size());
        PROBE("message interrupted by an exception");
    }
    if (ok && bad) fail("message", "message %d to an object with %s succeeded, but it had to fail", f, ml_str(o.type).c_str());
    if (!ok && !bad) fail("message", "message %d to an object with %s failed", f, ml_str(o.type).c_str());
    size_t n = std::min(log.size(), r.log.size());
    for (size_t i = 0; i < n; ++i) {
        if (log[i].m != r.log[i].m || log[i].f != r.log[i].f) fail("message", "message %d (mode %d) to an object with %s: call %lu reached mixin %d instead of %d", f, arg >> 8, ml_str(o.type).c_str(), (unsigned long)i, log[i].m, r.log[i].m);
        if (log[i].addr != r.log[i].addr) fail("message", "message %d to an object with %s: call %lu to mixin %d got the wrong mixin address", f, ml_str(o.type).c_str(), (unsigned long)i, log[i].m);
        if (log[i].arg != arg) fail("message", "message %d: call %lu got the argument %d instead of %d", f, (unsigned long)i, log[i].arg, arg);
    }
    if (log.size() != r.log.size()) fail("message", "message %d (mode %d) to an object with %s made %lu calls instead of %lu", f, arg >> 8, ml_str(o.type).c_str(), (unsigned long)log.size(), (unsigned long)r.log.size());
    if (ok && got != want) fail("message", "message %d (mode %d) to an object with %s gave %d instead of %d", f, arg >> 8, ml_str(o.type).c_str(), got, want);
    if (iface == 2 && (comb.got != results || (ok && comb.num != nres))) fail("message", "a combinator of message %d to an object with %s got %lu results of %lu instead of %lu of %lu, or others", f, ml_str(o.type).c_str(), (unsigned long)comb.got.size(), (unsigned long)comb.num, (unsigned long)results.size(), (unsigned long)nres);
    if (comb.stop && results.size() < nres) PROBE("combinator stopped a message");
    rt::trace(uint64_t(got));
    if (pr.size() > 1) PROBE("message with several implementers");
    if (results.size() > 1) PROBE("message called several mixins");
    if (bad) PROBE("message fails");
    log.clear();
    return true;
}

// ---- mutation by edits ----
struct Edit { int what, m, init, by, val; };
bool edit_of(int64_t a, Edit& e) {
    if (!(a & PRESENT)) return false;
    e.what = int(a & 15) % 4;
    e.m = int(a >> 4 & 15) % NM;
    e.init = int(a >> 8 & 15) % 4;
    e.by = int(a >> 12 & 15) % 3;
    e.val = int(a >> 16 & 0xfff);
    return true;
}

template <size_t... I> void mutate_n(dx::object& o, std::vector<OpRef>& r, std::index_sequence<I...>) { dx::mutate(o, r[I]...); }
void mutate_v(dx::object& o, std::vector<OpRef>& r) {
    switch (r.size()) {
    case 1: mutate_n(o, r, std::make_index_sequence<1>()); break;
    case 2: mutate_n(o, r, std::make_index_sequence<2>()); break;
    case 3: mutate_n(o, r, std::make_index_sequence<3>()); break;
    case 4: mutate_n(o, r, std::make_index_sequence<4>()); break;
    default: mutate_n(o, r, std::make_index_sequence<5>());
    }
}
template <size_t... I> void mutate_to_n(dx::object& o, const dx::type& t, std::vector<OpRef>& r, std::index_sequence<I...>) { dx::mutate_to(o, t, r[I]...); }
void mutate_to_v(dx::object& o, const dx::type& t, std::vector<OpRef>& r) {
    switch (r.size()) {
    case 0: dx::mutate_to(o, t); break;
    case 1: mutate_to_n(o, t, r, std::make_index_sequence<1>()); break;
    case 2: mutate_to_n(o, t, r, std::make_index_sequence<2>()); break;
    case 3: mutate_to_n(o, t, r, std::make_index_sequence<3>()); break;
    default: mutate_to_n(o, t, r, std::make_index_sequence<4>());
    }
}

bool exec_mutate(const Op& op) {
    int slot = int(op.a[0]) % NOBJ, iface = int(op.a[1]) % 3;
    if (!usable(slot, true)) return false;
    auto& o = W.obj[slot];
    bool flight = op.a[7] & 1, explicit_apply = op.a[7] & 2, cancel = op.a[7] & 4, abort = op.a[7] & 8;
    if (iface != 1) explicit_apply = cancel = abort = false;
    std::vector<Edit> ed;
    ML req = o.type;
    bool bad_edit = false;
    unsigned named = 0, over = 0;
    Expect x;
    for (int i = 2; i < 7; ++i) {
        Edit e;
        if (!edit_of(op.a[i], e)) continue;
        if (e.what == E_LACKING && iface != 1) e.what = E_ADD;
        if (iface == 2 && e.by == AB_TYPED) e.by = AB_INFO;
        if (iface == 1) e.init = AI_DEFAULT;
        if (e.what >= 1 && e.what != E_LACKING) e.init = AI_DEFAULT;
        if (!mix_ok(e.m)) return false;
        if (e.by == AB_NAME && !name_unique(e.m)) return false;
        if (iface != 2 && e.init == AI_ARGS) e.by = AB_TYPED;
        if (iface != 2 && e.init == AI_COMMON) e.by = AB_TYPED;
        if (iface != 2 && e.init == AI_FUNC && e.by == AB_TYPED) e.by = AB_INFO;
        if (iface == 2 && e.init) e.init = AI_FUNC;
        bool has = ml_has(req, e.m);
        if (!bad_edit) {
            if (e.what == E_ADD || (e.what == E_LACKING && !has)) {
                if (ml_n(req) >= 8) return false;
                if (e.by == AB_NAME) named |= 1u << e.m;
                req = ml_add(req, e.m);
            }
            else if (e.what == E_REMOVE) { if (has) req = ml_erase(req, ml_find(req, e.m)); }
            else if (e.what == E_BACK) {
                if (!has) bad_edit = true;
                else req = ml_add(ml_erase(req, ml_find(req, e.m)), e.m);
            }
        }
        if (e.what == E_ADD && e.init != AI_DEFAULT) {
            if (e.m == M_FOREIGN || (over >> e.m & 1)) return false;
            if (e.init == AI_COMMON && (e.val & 1)) {} // does not override
            else {
                over |= 1u << e.m;
                x.e[e.m].how = e.init == AI_ARGS ? H_ARGS : H_FUNC;
                x.e[e.m].val = e.val;
            }
        }
        ed.push_back(e);
    }
    bool unknown_op = iface == 2 && (op.a[7] & 16);
    if (unknown_op) bad_edit = true;
    // an initializer for a mixin which another edit adds without one is used as well
    if (iface == 0 && ed.empty()) return false;
    if (!request_safe(req)) return false;
    if ((cancel || abort) && named) return false;
    bool no_request = cancel || abort || bad_edit;
    if (bad_edit && named) return false; // the mixin may also be not registered; either way it fails
    updates[rt::cur()].clear();
    W.expect_obj[rt::cur()] = o.ptr;
    uint32_t wc = W.constructed[rt::cur()];
    uint32_t wm = W.next_inst;
    std::vector<std::unique_ptr<AnyOp>> owned;
    std::vector<OpRef> refs;
    if (iface == 0) {
        for (auto& e : ed) {
            owned.emplace_back(make_op(e.what == E_REMOVE ? AO_REMOVE : e.what == E_BACK ? AO_BACK : AO_ADD, e.init, e.by, e.m, e.val));
            refs.push_back({owned.back().get()});
        }
    }
    std::vector<dnmx_mutate_op> cops;
    for (auto& e : ed) {
        dnmx_mutate_op c{};
        c.op_type = e.what == E_REMOVE ? dnmx_mutate_op_remove : e.what == E_BACK ? dnmx_mutate_op_to_back : dnmx_mutate_op_add;
        if (e.by == AB_NAME) c.mixin_name = dnmx_sv::from_std(W.mname[e.m]);
        else c.mixin = W.mix[e.m];
        if (c.op_type != dnmx_mutate_op_add) { if (e.val & 1) { c.init_override = c_init_never; c.user_data = uintptr_t(e.val); } }
        else if (e.init) { c.init_override = c_init_with; c.user_data = uintptr_t(e.val); }
        cops.push_back(c);
    }
    if (unknown_op) {
        dnmx_mutate_op c{};
        c.op_type = dnmx_mutate_op_to_back + 1 + int(op.a[3] & 3);
        c.mixin = W.mix[ml_n(o.type) ? ml_at(o.type, 0) : 0];
        cops.insert(cops.begin() + long(cops.size() / 2), c);
        PROBE("mutation with an unknown operation");
    }
    bool threw_abort = false;
    auto gradual = [&] {
        dx::gradual_mutation g = dx::mutate(*o.ptr);
        for (auto& e : ed) {
            auto& info = *W.mix[e.m];
            std::string_view name = W.mname[e.m];
            if (e.by == AB_TYPED) { HarnessScope hs; typed_gradual(&g, e.what == E_REMOVE ? 1 : e.what == E_BACK ? 2 : e.what == E_LACKING ? 3 : 0, e.m); }
            else if (e.by == AB_INFO) switch (e.what) { case E_ADD: g.add(info); break; case E_REMOVE: g.remove(info); break; case E_BACK: g.to_back(info); break; default: g.add_if_lacking(info); }
            else switch (e.what) { case E_ADD: g.add(name); break; case E_REMOVE: g.remove(name); break; case E_BACK: g.to_back(name); break; default: g.add_if_lacking(name); }
        }
        if (cancel) g.cancel();
        else if (abort) { threw_abort = true; user_throw(op.a[3] & 64 ? rt::Fault::cb_other : rt::Fault::cb_throw); }
        else if (explicit_apply) g.apply();
    };
    auto go = [&]() -> bool {
        switch (iface) {
        case 0: return sut_maybe(flight, [&] { mutate_v(*o.ptr, refs); });
        case 1: return sut_maybe(flight, gradual);
        default: return csut_maybe(flight, [&] { return dnmx_mutate(o.ptr->to_c_hanlde(), cops.data(), uint32_t(cops.size())) == 0; });
        }
    };
    if (no_request) {
        bool ok = go();
        bool must_fail = bad_edit || threw_abort;
        no_fault_expected(ok, must_fail, "a mutation");
        if (W.constructed[rt::cur()] != wc) fail("object-state", "a mutation which was not applied constructed mixins");
        unchanged(slot);
        PROBE("mutation not applied");
        return true;
    }
    ML was = o.type;
    Call c(RC_GET_TYPE);
    c->req = req;
    c->has_local = true;
    c->old_list = was;
    c->old_mask = ml_mask(was);
    c->over_mask = over;
    for (int m = 0; m < NM; ++m) if (!(mcfg(m).fn & FN_INIT)) c->noinit_mask |= 1u << m;
    c->named = named;
    c->local_must_fail = o.sealed;
    c->same_ok = iface == 0;
    bool ok = go();
    c.ret(ok);
    if (ok) {
        const dx::type* t;
        { SutScope ss; t = &o.ptr->get_type(); }
        c->list = read_type(*t);
        c->type = row_of(*t, c->list);
    }
    c.fin();
    W.expect_obj[rt::cur()] = nullptr;
    if (ok) { settle(slot, c->list, x, wm); if (c->list != was) PROBE("mutation by edits changed an object"); }
    else { unchanged(slot); PROBE("mutation by edits failed"); }
    return true;
}

// ---- mutation to a type ----
struct Over { int m, init, by, val; };

bool exec_mutate_to(const Op& op) {
    int slot = int(op.a[0]) % NOBJ, iface = int(op.a[1]) % 7;
    ML req = ML(op.a[2]);
    if (!usable(slot, true) || !request_safe(req)) return false;
    auto& o = W.obj[slot];
    bool flight = op.a[7] & 1, upd = op.a[7] & 2, abort = op.a[7] & 4, disorder = op.a[7] & 8;
    bool finalize = op.a[7] & 16, after = op.a[7] & 32, undo = op.a[7] & 64, retry = op.a[7] & 128; // of a piecewise mutation
    bool with_over = iface == 2 || iface == 3 || iface == 4;
    if (iface != 3) disorder = abort = finalize = undo = retry = false;
    if (disorder || abort || undo) finalize = false;
    if (disorder || abort) undo = false;
    after &= finalize;
    std::vector<Over> ov;
    unsigned seen = 0;
    if (with_over) for (int i = 3; i < 7; ++i) {
        int64_t a = op.a[i];
        if (!(a & PRESENT)) continue;
        Over v{int(a & 15) % NM, int(a >> 4 & 15) % 4, int(a >> 8 & 15) % 3, int(a >> 12 & 0xfff)};
        if (v.m == M_FOREIGN || !mix_ok(v.m)) return false;
        if (v.by == AB_NAME && !name_unique(v.m)) return false;
        if (iface != 4 && (seen >> v.m & 1)) return false;
        seen |= 1u << v.m;
        if (iface == 2 && (v.init == AI_ARGS || v.init == AI_COMMON)) v.by = AB_TYPED;
        if (iface == 3) v.init = AI_FUNC;
        ov.push_back(v);
    }
    ML T = 0;
    const dx::type* t = request(req, 0, T);
    if (!t) { unchanged(slot); return true; }
    bool same = T == o.type;
    Expect x;
    unsigned over = 0;
    for (auto& v : ov) {
        if (over >> v.m & 1) continue; // the first one
        if (iface == 4) {
            if (v.init == AI_DEFAULT) { over |= 0; seen &= ~(1u << v.m); }
            else { x.e[v.m] = {H_FUNC, v.val, 0}; }
            over |= 1u << v.m;
        }
        else {
            x.e[v.m] = {iface == 2 && v.init == AI_ARGS ? H_ARGS : H_FUNC, v.val, 0};
            over |= 1u << v.m;
        }
    }
    unsigned covered = over;
    if (iface == 4) for (int m = 0; m < NM; ++m) if ((over >> m & 1) && x.e[m].how == H_DEFAULT) covered &= ~(1u << m);
    if (iface == 6) { for (int m = 0; m < NM; ++m) x.e[m] = {H_FUNC, 500 + m, 0}; covered = ~0u; }
    bool must_fail = noinit_among(T, o.type, covered);
    if (o.sealed && !(iface == 2 && same && !ov.empty())) must_fail = true;
    // piecewise: in the order of the type
    std::vector<std::pair<int, int>> at; // index, value
    int upto = 0;
    if (iface == 3) {
        for (int i = 0; i < ml_n(T); ++i) for (auto& v : ov) if (v.m == ml_at(T, i)) at.push_back({i, v.val});
        if (!at.empty()) upto = at.back().first + 1;
        if (disorder && !upto) disorder = false;
        if (abort || disorder) must_fail = true;
    }
    updates[rt::cur()].clear();
    update_slot[rt::cur()] = slot;
    W.expect_obj[rt::cur()] = o.ptr;
    uint32_t wm = W.next_inst;
    std::vector<std::unique_ptr<AnyOp>> owned;
    std::vector<OpRef> refs;
    if (iface == 2) for (auto& v : ov) {
        owned.emplace_back(make_to_op(v.init, v.by, v.m, v.val));
        refs.push_back({owned.back().get()});
    }
    std::vector<dnmx_mutate_to_override> cov;
    if (iface == 4) for (auto& v : ov) {
        dnmx_mutate_to_override c{};
        if (v.by == AB_NAME) c.mixin_name = dnmx_sv::from_std(W.mname[v.m]);
        else c.mixin = W.mix[v.m];
        if (v.init != AI_DEFAULT) { c.init_new = c_init_with; c.user_data = uintptr_t(v.val); }
        if (upd) c.update_common = c_update_cb;
        cov.push_back(c);
    }
    auto h = o.ptr->to_c_hanlde();
    bool ok, finalized = false, undone = false, retried = false;
    switch (iface) {
    case 0: ok = sut_maybe(flight, [&] { o.ptr->reset_type(*t); }); break;
    case 1: ok = sut_maybe(flight, [&] { dx::mutate_to(*o.ptr, *t); }); break;
    case 2: ok = sut_maybe(flight, [&] { mutate_to_v(*o.ptr, *t, refs); }); break;
    case 3:
        ok = sut_maybe(flight, [&] {
            dx::object_mutation mut(*o.ptr, *t);
            auto complete = [&](bool want) {
                HarnessScope hs;
                if (mut.complete() != want) fail("object-state", "a mutation with %s mixins to be updated says that it is %scomplete", want ? "no" : "more", want ? "not " : "");
            };
            complete(!ml_n(T));
            int done = 0;
            for (auto& a : at) {
                int val = a.second;
                auto init = [val](dx::init_new_args ar) { init_with(ar, val); };
                auto step = [&] {
                    if (upd) mut.update_at(dx::mixin_index_t(a.first), init, [](dx::update_common_args ar) { update_cb(ar); });
                    else mut.update_at(dx::mixin_index_t(a.first), init, [](dx::update_common_args) {});
                };
                bool again = false;
                if (retry) { try { step(); } catch (...) { again = retried = true; } }
                if (again || !retry) step();
                done = a.first + 1;
                complete(done == ml_n(T));
            }
            if (undo) { mut.rollback(); undone = true; return; }
            if (finalize) {
                mut.default_construct_each_new_mixin();
                complete(true);
                mut.finalize();
                finalized = true;
                if (after) user_throw(op.a[2] & 1 ? rt::Fault::cb_other : rt::Fault::cb_throw);
            }
            if (disorder) { mut.update_at(dx::mixin_index_t(upto - 1), [](dx::init_new_args ar) { init_with(ar, 1); }, [](dx::update_common_args) {}); }
            if (abort) user_throw(op.a[2] & 1 ? rt::Fault::cb_other : rt::Fault::cb_throw);
        });
        break;
    case 4: ok = csut_maybe(flight, [&] { return dnmx_mutate_to(h, t, cov.data(), uint32_t(cov.size())) == 0; }); break;
    case 5: ok = csut_maybe(flight, [&] { return dnmx_object_reset_type(h, t) == 0; }); break;
    default:
        ok = sut_maybe(flight, [&] {
            auto init = [](dx::init_new_args ar) { int m; { HarnessScope hs; m = mix_index(&ar.info); } init_with(ar, 500 + m); };
            if (upd) dx::perform_object_mutation(*o.ptr, *t, init, [](dx::update_common_args ar) { update_cb(ar); });
            else dx::perform_object_mutation(*o.ptr, *t, init);
        });
    }
    W.expect_obj[rt::cur()] = nullptr;
    if (finalized) {
        if (ok == after) fail("object-state", "a finalized mutation %s", after ? "lost an exception" : "threw");
        ok = true;
        if (after) PROBE("mutation finalized before an exception");
        else PROBE("mutation finalized explicitly");
    }
    if (undone) {
        if (!ok) fail("object-state", "a mutation which was rolled back threw");
        if (o.sealed) no_fault_expected(true, true, "the start of a mutation");
        ok = false;
        PROBE("mutation rolled back explicitly");
    }
    else no_fault_expected(ok, must_fail, "the mutation of an object to a type");
    if (retried) PROBE("initializer retried in a piecewise mutation");
    else if (ok) swallowed("the mutation of an object");
    if (disorder) PROBE("piecewise mutation out of order");
    if (abort) PROBE("piecewise mutation aborted");
    apply_updates(slot);
    // which common ones had to be updated
    if (upd && ok && !(same && (iface == 2))) {
        auto& u = updates[rt::cur()];
        for (int i = 0; i < ml_n(T); ++i) {
            int m = ml_at(T, i);
            if (!ml_has(o.type, m)) continue;
            bool want = iface == 6 || ((iface == 3 || iface == 4) && (over >> m & 1));
            int n = 0;
            for (auto& y : u) if (y.m == m) ++n;
            if (n != int(want)) fail("object-state", "the update function of the kept mixin %d was called %d times instead of %d", m, n, int(want));
        }
    }
    if (ok) { if (!same) PROBE("mutation to a type changed an object"); settle(slot, T, x, wm); }
    else { unchanged(slot); PROBE("mutation to a type failed"); }
    return true;
}

// ---- the others ----
bool exec_new(const Op& op) {
    int slot = int(op.a[0]) % NOBJ, pool = int(op.a[1]) % NPOOL_OBJ, how = int(op.a[2]) % 4;
    ML req = ML(op.a[3]);
    bool sealed = op.a[5] & 1;
    if (!free_slot(slot)) return false;
    if (how >= 2) { pool = P_GLOBAL; sealed = false; }
    if (how == 0 || how == 2) {
        dx::object* p = nullptr;
        void* mem = how ? nullptr : obj_mem();
        bool ok;
        if (how) ok = csut([&] { p = dx::object::from_c_handle(dnmx_create_object_empty(W.d0->to_c_hanlde())); return p != nullptr; });
        else { ok = sut([&] { new (mem) dx::object(*W.d0, pool_alloc(pool)); }); p = static_cast<dx::object*>(mem); }
        no_fault_expected(ok, false, "the creation of an empty object");
        if (!ok) { if (mem) obj_free(mem); return true; }
        born(slot, p, how == 2, pool);
        verify_object(slot, 1);
        return true;
    }
    if (!request_safe(req)) return false;
    ML T = 0;
    auto* t = request(req, 0, T);
    if (!t) return true;
    bool must_fail = noinit_among(T, 0, 0);
    uint32_t wm = W.next_inst;
    dx::object* p = nullptr;
    bool ok;
    if (how == 1) {
        void* mem = obj_mem();
        W.expect_obj[rt::cur()] = static_cast<dx::object*>(mem);
        ok = sut([&] { new (mem) dx::object(*t, pool_alloc(pool), sealed); });
        if (ok) p = static_cast<dx::object*>(mem);
        else obj_free(mem);
        W.expect_obj[rt::cur()] = nullptr;
    }
    else ok = csut([&] { p = dx::object::from_c_handle(dnmx_create_object_default(t)); return p != nullptr; });
    no_fault_expected(ok, must_fail, "the creation of an object");
    if (!ok) { PROBE("creation of an object failed"); return true; }
    swallowed("the creation of an object");
    born(slot, p, how == 3, pool);
    W.obj[slot].sealed = sealed;
    settle(slot, T, Expect(), wm);
    return true;
}

void destroy_obj(int slot, bool flight) {
    auto& o = W.obj[slot];
    bool ok;
    if (o.is_c) ok = sut_maybe(flight, [&] { dnmx_destroy_object(o.ptr->to_c_hanlde()); });
    else ok = sut_maybe(flight, [&] { o.ptr->~object(); });
    if (!ok) fail("foreign-exception", "the destruction of an object threw");
    if (!o.is_c) obj_free(o.ptr);
    for (int i = 0; i < ml_n(o.type); ++i) {
        if (!o.id[i]) continue;
        auto* in = inst_at((void*)o.addr[i]);
        if (in && in->id == o.id[i]) fail("not-destroyed", "the instance %u of mixin %d outlives its object", o.id[i], ml_at(o.type, i));
    }
    forget(o);
}

bool exec_copy(const Op& op) {
    int dst = int(op.a[0]) % NOBJ, src = int(op.a[1]) % NOBJ, pool = int(op.a[2]) % NPOOL_OBJ;
    bool capi = op.a[3] & 1;
    if (!free_slot(dst) || !usable(src, false)) return false;
    auto& s = W.obj[src];
    if (!list_ok(s.type)) return false;
    if (gcc() && !pinned_type(s.type)) return false;
    if (capi) pool = P_GLOBAL;
    bool must_fail = false;
    Expect x;
    for (int i = 0; i < ml_n(s.type); ++i) {
        int m = ml_at(s.type, i);
        if (!(mcfg(m).fn & FN_COPY)) must_fail = true;
        x.e[m] = {H_COPY, s.val[i], s.id[i]};
    }
    uint32_t wm = W.next_inst;
    dx::object* p = nullptr;
    bool ok;
    if (capi) ok = csut([&] { p = dx::object::from_c_handle(dnmx_create_object_copy(s.ptr->to_c_hanlde())); return p != nullptr; });
    else {
        void* mem = obj_mem();
        ok = sut([&] { new (mem) dx::object(s.ptr->copy(pool_alloc(pool))); });
        if (ok) p = static_cast<dx::object*>(mem);
        else obj_free(mem);
    }
    no_fault_expected(ok, must_fail, "the copy of an object");
    verify_object(src, 1);
    if (!ok) { PROBE("copy of an object failed"); return true; }
    swallowed("the copy of an object");
    born(dst, p, capi, pool);
    settle(dst, s.type, x, wm);
    PROBE("copy of an object");
    return true;
}

bool exec_copy_from(const Op& op) {
    int dst = int(op.a[0]) % NOBJ, src = int(op.a[1]) % NOBJ;
    bool capi = op.a[2] & 1;
    if (!usable(dst, true) || !usable(src, false)) return false;
    auto &d = W.obj[dst], &s = W.obj[src];
    if (!list_ok(s.type)) return false;
    if (gcc() && !pinned_type(s.type)) return false;
    ML T = s.type;
    bool must_fail = d.sealed;
    Expect x;
    int newval[NM];
    for (int i = 0; i < ml_n(T); ++i) {
        int m = ml_at(T, i);
        auto c = mcfg(m);
        bool common = ml_has(d.type, m);
        if (!(c.fn & (common ? FN_CASGN : FN_COPY))) must_fail = true;
        x.e[m] = {H_COPY, s.val[i], s.id[i]};
        newval[m] = s.val[i];
    }
    W.expect_obj[rt::cur()] = d.ptr;
    uint32_t wm = W.next_inst;
    bool ok;
    if (capi) ok = csut([&] { return dnmx_object_copy_from(d.ptr->to_c_hanlde(), s.ptr->to_c_hanlde()) == 0; });
    else ok = sut([&] { d.ptr->copy_from(*s.ptr); });
    W.expect_obj[rt::cur()] = nullptr;
    no_fault_expected(ok, must_fail, "the copy of an object to another one");
    if (ok) swallowed("the copy of an object to another one");
    if (!ok && must_fail && rt::fault_fired() == false) unchanged(dst);
    // the kept ones: all assigned, or if it failed, some
    if (dst != src) for (int i = 0; i < ml_n(d.type); ++i) {
        int m = ml_at(d.type, i);
        if (!ml_has(T, m)) continue;
        auto c = mcfg(m);
        if (ok) { d.val[i] = newval[m]; continue; }
        if (c.pod) {
            // which of both can not be told from an instance: compare the bytes of the first
            if (c.size && d.val[i] != newval[m]) {
                const unsigned char* p = (const unsigned char*)d.addr[i];
                rt::access(p, size_t(c.size), false);
                std::vector<unsigned char> a((size_t)c.size);
                memcpy(a.data(), p, a.size());
                const unsigned char* q = (const unsigned char*)s.addr[ml_find(T, m)];
                if (!memcmp(a.data(), q, a.size())) d.val[i] = newval[m];
            }
        }
        else {
            auto* in = inst_at((void*)d.addr[i]);
            if (in && in->id == d.id[i] && in->val == newval[m]) d.val[i] = newval[m];
        }
    }
    if (ok) settle(dst, T, x, wm);
    else { unchanged(dst); PROBE("copy to an object failed"); }
    if (src != dst) verify_object(src, 1);
    return true;
}

bool exec_copy_match(const Op& op) {
    int dst = int(op.a[0]) % NOBJ, src = int(op.a[1]) % NOBJ;
    if (!usable(dst, true) || !usable(src, false)) return false;
    auto &d = W.obj[dst], &s = W.obj[src];
    bool must_fail = false;
    for (int i = 0; i < ml_n(s.type); ++i) {
        int m = ml_at(s.type, i);
        if (ml_has(d.type, m) && !(mcfg(m).fn & FN_CASGN)) must_fail = true;
    }
    bool ok = sut([&] { d.ptr->copy_matching_from(*s.ptr); });
    no_fault_expected(ok, must_fail, "the copy of matching mixins");
    if (ok) swallowed("the copy of matching mixins");
    if (!must_fail) for (int i = 0; i < ml_n(d.type); ++i) {
        int m = ml_at(d.type, i), si = ml_find(s.type, m);
        if (si < 0) continue;
        auto c = mcfg(m);
        if (ok) { d.val[i] = s.val[si]; continue; }
        if (c.pod) {
            if (c.size && d.val[i] != s.val[si]) {
                rt::access((void*)d.addr[i], size_t(c.size), false);
                if (!memcmp((void*)d.addr[i], (void*)s.addr[si], size_t(c.size))) d.val[i] = s.val[si];
            }
        }
        else {
            auto* in = inst_at((void*)d.addr[i]);
            if (in && in->id == d.id[i] && in->val == s.val[si]) d.val[i] = s.val[si];
        }
    }
    verify_object(dst, 1);
    if (src != dst) verify_object(src, 1);
    return true;
}

bool exec_move_match(const Op& op) {
    int dst = int(op.a[0]) % NOBJ, src = int(op.a[1]) % NOBJ;
    bool fallback = op.a[2] & 1;
    if (!usable(dst, true) || !usable(src, true)) return false;
    auto &d = W.obj[dst], &s = W.obj[src];
    bool must_fail = false;
    if (src == dst) { // nothing moves, so it may also succeed where mixins can't be moved
        PROBE("move of matching mixins of an object to itself");
        for (int i = 0; i < ml_n(s.type); ++i) {
            int fn = mcfg(ml_at(s.type, i)).fn;
            if (!(fn & FN_MASGN) && !(fallback && (fn & FN_MOVE))) must_fail = true;
        }
        bool ok = sut([&] { d.ptr->move_matching_from(*s.ptr, fallback); });
        if (!must_fail) no_fault_expected(ok, false, "the move of matching mixins of an object to itself");
        verify_object(dst, 1);
        return true;
    }
    for (int i = 0; i < ml_n(s.type); ++i) {
        int m = ml_at(s.type, i);
        if (!ml_has(d.type, m)) continue;
        int fn = mcfg(m).fn;
        if (!(fn & FN_MASGN) && !(fallback && (fn & FN_MOVE))) must_fail = true;
    }
    bool ok = sut([&] { d.ptr->move_matching_from(*s.ptr, fallback); });
    no_fault_expected(ok, must_fail, "the move of matching mixins");
    if (ok) for (int i = 0; i < ml_n(d.type); ++i) {
        int m = ml_at(d.type, i), si = ml_find(s.type, m);
        if (si < 0) continue;
        auto c = mcfg(m);
        d.val[i] = s.val[si];
        if (c.pod) { if (!pod_move_copies(m)) s.val[si] = 0; continue; } // copied, the source may be set to zeroes
        s.val[si] = MOVED_VAL;
        if (!(c.fn & FN_MASGN)) {
            // move constructed over its own destroyed one
            PROBE("move of matching mixins by construction");
            auto* in = inst_at((void*)d.addr[i]);
            if (!in || in->id != s.id[si]) fail("object-state", "mixin %d was not moved from the other object", m);
            d.id[i] = s.id[si];
            auto* sn = inst_at((void*)s.addr[si]);
            if (!sn || !sn->moved) fail("object-state", "mixin %d of the source was not moved from", m);
            sn->moved = false;
            sn->id = s.id[si] = W.next_inst++;
            sn->val = MOVED_VAL;
            mix_write(m, (void*)s.addr[si], sn->id, MOVED_VAL);
        }
    }
    verify_object(dst, 1);
    verify_object(src, 1);
    return true;
}

bool exec_move_new(const Op& op) {
    int dst = int(op.a[0]) % NOBJ, src = int(op.a[1]) % NOBJ;
    bool capi = op.a[2] & 1;
    if (!free_slot(dst) || !usable(src, true) || !list_ok(W.obj[src].type)) return false;
    auto &d = W.obj[dst], &s = W.obj[src];
    dx::object* p = nullptr;
    bool ok;
    if (capi) ok = csut([&] { p = dx::object::from_c_handle(dnmx_create_object_usurp(s.ptr->to_c_hanlde())); return p != nullptr; });
    else {
        void* mem = obj_mem();
        ok = sut([&] { new (mem) dx::object(std::move(*s.ptr)); });
        p = static_cast<dx::object*>(mem);
        if (!ok) obj_free(mem);
    }
    no_fault_expected(ok, false, "the move of an object");
    if (!ok) { verify_object(src, 1); return true; }
    int ow = d.owner;
    d = s;
    d.owner = ow;
    d.ptr = p;
    d.is_c = capi;
    s.type = 0;
    s.sealed = false;
    verify_object(dst, 1);
    verify_object(src, 1);
    PROBE("move of an object");
    return true;
}

bool exec_move_asgn(const Op& op) {
    int dst = int(op.a[0]) % NOBJ, src = int(op.a[1]) % NOBJ;
    if (!usable(dst, true) || !usable(src, true)) return false;
    auto &d = W.obj[dst], &s = W.obj[src];
    bool must_fail = dst != src && (d.pool != s.pool || d.sealed);
    bool ok = sut([&] { auto& r = *s.ptr; *d.ptr = std::move(r); });
    no_fault_expected(ok, must_fail, "the move of an object to another one");
    if (ok && dst != src) {
        auto* p = d.ptr;
        bool c = d.is_c;
        int ow = d.owner;
        for (int i = 0; i < ml_n(d.type); ++i) {
            if (!d.id[i]) continue;
            auto* in = inst_at((void*)d.addr[i]);
            if (in && in->id == d.id[i]) fail("not-destroyed", "the instance %u of mixin %d outlives a move to its object", d.id[i], ml_at(d.type, i));
        }
        d = s;
        d.ptr = p; d.is_c = c; d.owner = ow;
        s.type = 0;
        s.sealed = false;
    }
    verify_object(dst, 1);
    verify_object(src, 1);
    return true;
}

bool exec_clear(const Op& op) {
    int slot = int(op.a[0]) % NOBJ, how = int(op.a[1]) % 5;
    if (!usable(slot, true)) return false;
    auto& o = W.obj[slot];
    auto h = o.ptr->to_c_hanlde();
    bool ok;
    switch (how) {
    case 0: ok = sut([&] { o.ptr->clear(); }); break;
    case 1: ok = sut([&] { o.ptr->reset_type(); }); break;
    case 2: ok = csut([&] { return dnmx_object_clear(h); }); break;
    case 3: ok = csut([&] { return dnmx_object_reset_type(h, nullptr) == 0; }); break;
    default: ok = sut([&] { o.ptr->reset_type(W.d0->get_empty_type()); });
    }
    no_fault_expected(ok, o.sealed, "the clearing of an object");
    if (ok) {
        for (int i = 0; i < ml_n(o.type); ++i) {
            if (!o.id[i]) continue;
            auto* in = inst_at((void*)o.addr[i]);
            if (in && in->id == o.id[i]) fail("not-destroyed", "the instance %u of mixin %d outlives the clearing of its object", o.id[i], ml_at(o.type, i));
        }
        o.type = 0;
    }
    verify_object(slot, 1);
    return true;
}

int sgn(int x) { return x < 0 ? -1 : x > 0; }

bool exec_cmp(const Op& op) {
    int ia = int(op.a[0]) % NOBJ, ib = int(op.a[1]) % NOBJ;
    if (!usable(ia, false) || !usable(ib, false)) return false;
    auto &a = W.obj[ia], &b = W.obj[ib];
    bool eq = true, canc = true, known = true;
    int cmp = 0;
    if (ia != ib) {
        if (a.type != b.type) {
            eq = false;
            if (conc()) known = false;
            else cmp = type_cmp_model(a.type, b.type);
        }
        else {
            for (int i = 0; i < ml_n(a.type) && eq; ++i) {
                int m = ml_at(a.type, i);
                if (!(mcfg(m).fn & (FN_EQ | FN_CMP))) eq = false;
                else if (mix_cmp_model(m, a.val[i], b.val[i])) eq = false;
            }
            for (int i = 0; i < ml_n(a.type) && !cmp; ++i) {
                int m = ml_at(a.type, i);
                if (!(mcfg(m).fn & FN_CMP)) { canc = false; break; }
                cmp = mix_cmp_model(m, a.val[i], b.val[i]);
            }
        }
    }
    bool e1 = false, e2 = false, e3 = false;
    int c1 = 0, c2 = 0;
    dnmx_int_result cr{};
    auto ha = static_cast<const dx::object*>(a.ptr)->to_c_hanlde(), hb = static_cast<const dx::object*>(b.ptr)->to_c_hanlde();
    bool ok = sut([&] { e1 = a.ptr->equals(*b.ptr); e2 = b.ptr->equals(*a.ptr); e3 = dnmx_object_equals(ha, hb); });
    if (!ok || e1 != eq || e2 != eq || e3 != eq) fail("compare", "objects with %s and %s: equals gives %d, %d, %d instead of %d", ml_str(a.type).c_str(), ml_str(b.type).c_str(), e1, e2, e3, eq);
    ok = sut([&] { c1 = a.ptr->compare(*b.ptr); });
    bool ok2 = sut([&] { c2 = b.ptr->compare(*a.ptr); });
    csut([&] { cr = dnmx_object_compare(ha, hb); return true; });
    if (known) {
        if (ok != canc || ok2 != canc) fail("compare", "the comparison of objects with %s %s", ml_str(a.type).c_str(), canc ? "failed" : "succeeded, but it had to fail");
        if (canc && (sgn(c1) != cmp || sgn(c2) != -cmp)) fail("compare", "objects with %s and %s: compare gives %d and %d instead of %d", ml_str(a.type).c_str(), ml_str(b.type).c_str(), c1, c2, cmp);
    }
    else if (!ok || !ok2 || !c1 || sgn(c1) != -sgn(c2)) fail("compare", "objects with %s and %s: compare gives %d and %d", ml_str(a.type).c_str(), ml_str(b.type).c_str(), c1, c2);
    if ((cr.error == 0) != ok || (ok && sgn(cr.result) != sgn(c1))) fail("c-interface", "dnmx_object_compare differs from object::compare");
    return true;
}

bool exec_typecheck(const Op& op) {
    int ia = int(op.a[0]) % NOBJ, ib = int(op.a[1]) % NOBJ, tc = int(op.a[2]) % NTC;
    if (!usable(ia, false) || !usable(ib, false)) return false;
    auto &a = W.obj[ia], &b = W.obj[ib];
    const dx::type *ta, *tb;
    { SutScope ss; ta = &a.ptr->get_type(); tb = &b.ptr->get_type(); }
    check_type(*ta, a.type, 1);
    bool eq = a.type == b.type;
    int c1, c2;
    bool q1, q2;
    {
        SutScope ss;
        q1 = *ta == *tb; q2 = *ta != *tb;
        c1 = ta->compare(*tb); c2 = tb->compare(*ta);
    }
    if (q1 != eq || q2 == eq) fail("type-query", "types with %s and %s tell wrongly whether they are equal", ml_str(a.type).c_str(), ml_str(b.type).c_str());
    int want = eq ? 0 : conc() ? sgn(c1) : type_cmp_model(a.type, b.type);
    if (sgn(c1) != want || sgn(c2) != -want || (!eq && !c1)) fail("type-query", "types with %s and %s compare as %d and %d instead of %d", ml_str(a.type).c_str(), ml_str(b.type).c_str(), c1, c2, want);
    // type classes by name
    int reg = -1;
    std::string name = W.tcname[tc];
    if (conc()) return true;
    for (int c = 0; c < NTC; ++c) if ((regt >> c & 1) && W.tcname[c] == name) reg = c;
    bool w = reg >= 0 && tc_model(reg, a.type);
    bool r1 = false, r2 = false, rc = false;
    bool ok1 = sut([&] { r1 = ta->is_of(std::string_view(name)); });
    bool ok2 = sut([&] { r2 = a.ptr->is_of(std::string_view(name)); });
    csut([&] { rc = dnmx_type_is_of_name(ta, dnmx_sv::from_std(name)); return true; });
    if (ok1 != (reg >= 0) || ok2 != ok1) fail("type-query", "a query of a type class by name %s", ok1 ? "succeeded, but there is none" : "failed");
    if (rc != w || (ok1 && (r1 != w || r2 != w))) fail("type-query", "a type with %s tells wrongly whether it is of the class '%s'", ml_str(a.type).c_str(), name.c_str());
    return true;
}
} // namespace

bool exec_object(const Op& op) {
    int slot = int(op.a[0]) % NOBJ;
    switch (op.kind) {
    case O_OBJ_NEW: return exec_new(op);
    case O_OBJ_DEL:
        if (!usable(slot, true)) return false;
        verify_object(slot, 0);
        destroy_obj(slot, op.a[1] & 1);
        return true;
    case O_OBJ_MUTATE: return exec_mutate(op);
    case O_OBJ_MUT_TO: return exec_mutate_to(op);
    case O_OBJ_CLEAR: return exec_clear(op);
    case O_OBJ_COPY: return exec_copy(op);
    case O_OBJ_COPY_FROM: return exec_copy_from(op);
    case O_OBJ_COPY_MATCH: return exec_copy_match(op);
    case O_OBJ_MOVE_NEW: return exec_move_new(op);
    case O_OBJ_MOVE_ASGN: return exec_move_asgn(op);
    case O_OBJ_MOVE_MATCH: return exec_move_match(op);
    case O_OBJ_SEAL: {
        if (!usable(slot, true)) return false;
        auto& o = W.obj[slot];
        sut([&] { if (op.a[1] & 1) dnmx_object_seal(o.ptr->to_c_hanlde()); else o.ptr->seal(); });
        o.sealed = true;
        verify_object(slot, 1);
        return true;
    }
    case O_OBJ_SETVAL: {
        if (!usable(slot, true)) return false;
        auto& o = W.obj[slot];
        int n = ml_n(o.type);
        if (!n) return false;
        int i = int(op.a[1]) % n;
        int v = int(op.a[2]) & 0xfff;
        set_val(o, i, v);
        mix_write(ml_at(o.type, i), (void*)o.addr[i], o.id[i], v);
        return true;
    }
    case O_OBJ_CMP: return exec_cmp(op);
    case O_OBJ_MSG: return exec_msg(op);
    case O_OBJ_READ:
        if (!usable(slot, false)) return false;
        verify_object(slot, 2);
        return true;
    case O_TYPECHECK: return exec_typecheck(op);
    default: return false;
    }
}
} // namespace ex
