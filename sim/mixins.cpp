// User code of the simulated system: mixins, messages, allocators, rules.
#include "world.h"
#include <dynamix/mutate.hpp>
#include <dynamix/mutate_ops.hpp>
#include <dynamix/mutate_to.hpp>
#include <dynamix/mutate_to_ops.hpp>
#include <dynamix/common_mixin_init.hpp>
#include <dynamix/common_mutation_rules.hpp>
#include <dynamix/feature_info_data.hpp>
#include <dynamix/mixin_info_data_literals.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/next_impl.hpp>
#include <dnmx/domain.h>
#include <dnmx/mixin_allocator.h>
#include <dnmx/mixin_common_funcs.h>
#include <dnmx/type_mutation.h>
#include <dnmx/mutate.h>
#include <string.h>
#include <type_traits>

using rt::fail;
using rt::HarnessScope;
using rt::SutScope;

// ---- messages ----
DYNAMIX_DECLARE_SIMPLE_MSG(m0, int(dynamix::object&, int));
struct Tok { // an argument which notices that it was moved from
    int v;
    Tok(int v) : v(v) {}
    Tok(const Tok& o) = default;
    Tok(Tok&& o) noexcept : v(o.v) { o.v = -1; }
};
static int arg_of(int a) { return a; }
static int arg_of(const Tok& t) { return t.v; }
DYNAMIX_DECLARE_SIMPLE_MSG(m1, int(const dynamix::object&, Tok));
DYNAMIX_DECLARE_SIMPLE_MSG(m2, int(dynamix::object&, Tok));
DYNAMIX_DECLARE_SIMPLE_MSG(m3, int(dynamix::object&, Tok));
static int m3_default(dynamix::object& o, Tok arg);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(m0, unicast, true, nullptr);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(m1, multicast, true, nullptr);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(m2, unicast, false, nullptr);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(m3, multicast, true, m3_default);

template <int F> struct MsgOf;
template <> struct MsgOf<0> { typedef m0 type; };
template <> struct MsgOf<1> { typedef m1 type; };
template <> struct MsgOf<2> { typedef m2 type; };
template <> struct MsgOf<3> { typedef m3 type; };

std::vector<MsgLog> msg_log[rt::MAXF];

int msg_value(int f, int m, int arg) { return int((unsigned(f) * 131u + unsigned(m) * 17u + unsigned(arg) * 7u + 5u) & 0xffffff); }
int msg_default_value(int f, int arg) { return msg_value(f, 99, arg); }

static int m3_default(dynamix::object& o, Tok tok) {
    HarnessScope hs;
    int arg = tok.v;
    msg_log[rt::cur()].push_back({3, -1, &o, arg});
    return msg_default_value(3, arg);
}

// ---- mixin types ----
template <int N> struct Mix {
    Mix(int v) {
        HarnessScope hs;
        if (int k = rt::callback_event()) {
            user_throw(k);
        }
        mix_construct(N, this, v, H_ARGS, 0);
    }
};
template <int K> struct BSize { static constexpr size_t size = 8, align = 8; };
template <> struct BSize<1> { static constexpr size_t size = 64, align = 32; };
template <int K> struct B {
    alignas(BSize<K>::align) unsigned char data[BSize<K>::size];
    static void ev() {
        if (int k = rt::callback_event()) {
            user_throw(k);
        }
    }
    B() { HarnessScope hs; ev(); mix_construct(MD0 + K, this, default_val(MD0 + K), H_DEFAULT, 0); }
    B(int v) { HarnessScope hs; ev(); mix_construct(MD0 + K, this, v, H_ARGS, 0); }
    B(const B& o);
    B(B&& o) noexcept;
    B& operator=(const B& o);
    B& operator=(B&& o) noexcept;
    ~B();
};
template <> struct B<2> { // plain data
    int a, b;
    B() = default;
    B(int v) { HarnessScope hs; if (int k = rt::callback_event()) { user_throw(k); } mix_construct(MD0 + 2, this, v, H_ARGS, 0); }
};
static_assert(std::is_trivially_copyable_v<B<2>>);

template <int N, typename = void> struct MixType { typedef Mix<N> type; };
template <int N> struct MixType<N, std::enable_if_t<(N >= MD0 && N < MD0 + NMD)>> { typedef B<N - MD0> type; };
template <int N> using MT = typename MixType<N>::type;

template <int N> const dynamix::mixin_info& _dynamix_get_mixin_info(const Mix<N>*) { return *W.mix[N]; }
template <int N> const dynamix::mixin_info& _dynamix_get_mixin_info(const B<N>*) { return *W.mix[MD0 + N]; }

template <typename F> static decltype(auto) with_mix(int m, F f) {
    switch (m) {
#define C(n) case n: return f(std::integral_constant<int, n>{});
    C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13)
#undef C
    default: return f(std::integral_constant<int, 14>{});
    }
}
template <typename F> static decltype(auto) with_msg(int f_, F f) {
    switch (f_) {
    case 0: return f(std::integral_constant<int, 0>{});
    case 1: return f(std::integral_constant<int, 1>{});
    case 2: return f(std::integral_constant<int, 2>{});
    default: return f(std::integral_constant<int, 3>{});
    }
}

// ---- configuration ----
MixCfg mcfg(int m) {
    if (m < MD0 || m >= MD0 + NMD) return W.cfg.mix[m];
    MixCfg c = W.cfg.mix[m];
    auto& d = W.md[m - MD0];
    int k = m - MD0;
    c.size = int(k == 0 ? sizeof(B<0>) : k == 1 ? sizeof(B<1>) : sizeof(B<2>));
    c.align = int(k == 0 ? alignof(B<0>) : k == 1 ? alignof(B<1>) : alignof(B<2>));
    c.pod = k == 2;
    c.fn = FN_ALL & ~(FN_EQ | FN_CMP);
    if (k == 2) c.fn &= ~FN_DESTROY;
    c.fn |= W.cfg.mix[m].fn & (FN_EQ | FN_CMP);
    c.alloc = d.alloc;
    c.dep = d.dep;
    c.nfeat = int(d.feats.size());
    for (int i = 0; i < c.nfeat && i < 4; ++i) c.feat[i] = d.feats[i];
    return c;
}

int mix_index(const dx::mixin_info* p) { for (int i = 0; i < NM; ++i) if (W.mix[i] == p) return i; return -1; }
int feat_index(const dx::feature_info* p) { for (int i = 0; i < NF; ++i) if (W.feat[i] == p) return i; return -1; }
int rule_index(const dx::mutation_rule_info* p) { for (int i = 0; i < NRALL; ++i) if (W.rules[i].ptr == p) return i; return -1; }
int tc_index(const dx::type_class* p) { for (int i = 0; i < NTC; ++i) if (W.tc[i] == p) return i; return -1; }

int default_val(int m) { return mcfg(m).pod ? 0 : 1000 + m; }

// ---- instances ----
Inst* inst_at(const void* p) {
    auto f = W.inst.find(uintptr_t(p));
    return f == W.inst.end() ? nullptr : &f->second;
}
int live_instances() { return int(W.inst.size()); }

static unsigned char pat(bool pod, uint32_t id, int val, size_t i) {
    if (pod) {
        if (val == 0) return 0;
        return (unsigned char)((unsigned(val) * 2654435761u >> (8 * (i & 3))) + i * 37 + 11);
    }
    return (unsigned char)((id * 2246822519u >> (8 * (i & 3))) + unsigned(val) * 31u + i * 13 + 1);
}

void mix_write(int m, void* p, uint32_t id, int val) {
    auto c = mcfg(m);
    if (!c.size) return;
    rt::access(p, size_t(c.size), true);
    for (int i = 0; i < c.size; ++i) ((unsigned char*)p)[i] = pat(c.pod, id, val, size_t(i));
}
void mix_verify(int m, const void* p, uint32_t id, int val, const char* where) {
    auto c = mcfg(m);
    if (!c.size) return;
    rt::access(p, size_t(c.size), false);
    for (int i = 0; i < c.size; ++i) {
        if (((const unsigned char*)p)[i] != pat(c.pod, id, val, size_t(i))) {
            fail("mixin-state", "%s: byte %d of mixin %d (instance %u) is %02x, its state is damaged or not the expected one (value %d)", where, i, m, id, ((const unsigned char*)p)[i], val);
        }
    }
}
int mix_cmp_model(int m, int va, int vb) {
    auto c = mcfg(m);
    if (c.pod) {
        for (int i = 0; i < c.size; ++i) {
            int x = pat(true, 0, va, size_t(i)), y = pat(true, 0, vb, size_t(i));
            if (x != y) return x < y ? -1 : 1;
        }
        return 0;
    }
    return va < vb ? -1 : va > vb ? 1 : 0;
}

static void place_check(int m, void* p) {
    auto c = mcfg(m);
    if (!rt::addressable((char*)p - sizeof(void*), sizeof(void*))) fail("mixin-place", "mixin %d is constructed at an address without room for the object pointer before it", m);
    if (c.size && !rt::addressable(p, size_t(c.size))) fail("mixin-place", "mixin %d is constructed at an address without the %d bytes it needs", m, c.size);
    int a = c.align ? c.align : 1;
    if (uintptr_t(p) % size_t(a)) fail("mixin-place", "mixin %d is constructed at an address which is not aligned to %d", m, a);
    auto* e = W.expect_obj[rt::cur()];
    if (e) {
        void* o;
        memcpy(&o, (char*)p - sizeof(void*), sizeof o);
        if (o != e) fail("object-of", "the mixin %d being constructed does not know its object", m);
    }
}

static void mix_construct(int m, void* p, int val, int how, uint32_t src, const Inst* from);
static bool has_kid(int m) { return W.cfg.nest && (m * 5 + W.cfg.nest) % 3 != 0 && (mcfg(m).fn & FN_DESTROY) && !mcfg(m).pod; }

void mix_construct(int m, void* p, int val, int how, uint32_t src) { mix_construct(m, p, val, how, src, nullptr); }
static Kid* kid_for(int m, int val, int how, const Inst* from) {
    if (!has_kid(m) || how == H_MOVEINIT) return nullptr;
    struct Outer { // what concerns the outer object
        dx::object* e = W.expect_obj[rt::cur()];
        ~Outer() { W.expect_obj[rt::cur()] = e; }
    } outer;
    W.expect_obj[rt::cur()] = nullptr;
    if (how == H_COPY && from && from->kid) return kid_copy(*from->kid, from->val);
    return kid_new(val * 7 + m);
}
// user code which asks the domain of its object
static void ask_domain(int m, bool types) {
    if (!W.cfg.nest || (m + W.cfg.nest) % 2) return;
    auto* d = m == M_FOREIGN ? W.d1 : W.d0;
    auto* i = W.mix[m];
    const dx::mixin_info* f;
    {
        SutScope ss;
        f = d->get_mixin_info(i->id);
        if (types) d->num_types();
    }
    if (f != i) fail("domain:lookup-mixin-by-id", "mixin %d of a living object is not found by its id from its own function", m);
    PROBE("a function of a mixin which asks the domain");
}
static void mix_construct(int m, void* p, int val, int how, uint32_t src, const Inst* from) {
    auto c = mcfg(m);
    place_check(m, p);
    ask_domain(m, true);
    Kid* kid = kid_for(m, val, how, from); // may throw
    uint32_t id = 0;
    if (!c.pod) {
        auto f = W.inst.find(uintptr_t(p));
        if (f != W.inst.end()) {
            if (mcfg(f->second.mix).fn & FN_DESTROY) fail("construct-over", "mixin %d is constructed over a living instance %u of mixin %d", m, f->second.id, f->second.mix);
            W.inst.erase(f);
        }
        // overlaps?
        auto n = W.inst.lower_bound(uintptr_t(p));
        if (n != W.inst.end() && c.size && n->first < uintptr_t(p) + size_t(c.size)) fail("mixin-place", "mixin %d is constructed over a part of instance %u of mixin %d", m, n->second.id, n->second.mix);
        if (n != W.inst.begin()) {
            --n;
            if (n->first + size_t(mcfg(n->second.mix).size) > uintptr_t(p)) fail("mixin-place", "mixin %d is constructed within instance %u of mixin %d", m, n->second.id, n->second.mix);
        }
        id = W.next_inst++;
        ++W.constructed[rt::cur()];
        W.inst[uintptr_t(p)] = Inst{m, id, val, how, src, false, kid};
    }
    mix_write(m, p, id, val);
    rt::trace(uint64_t(m) << 32 | id);
}

static Inst& need_live(int m, const void* p, const char* what) {
    auto* i = inst_at(p);
    if (!i) fail("dead-mixin", "%s with a mixin %d which was not constructed or was already destroyed", what, m);
    if (i->mix != m) fail("dead-mixin", "%s for mixin %d, but there is an instance of mixin %d", what, m, i->mix);
    if (i->moved) fail("dead-mixin", "%s with the moved-out instance %u of mixin %d", what, i->id, m);
    mix_verify(m, p, i->id, i->val, what);
    return *i;
}

int in_c[rt::MAXF];
void user_throw(int kind) {
    if (kind == rt::Fault::cb_oom) throw std::bad_alloc();
    if (kind == rt::Fault::cb_other && !in_c[rt::cur()]) { PROBE("user code threw something which is not an std::exception"); throw other_error(); }
    throw user_error();
}
int raise_fault(int kind) {
    if (kind > rt::Fault::cb_error) user_throw(kind);
    return 42;
}

static int idx_of(const dx::mixin_info* info) {
    int m = mix_index(info);
    if (m < 0) fail("callback-args", "a mixin function was called with an unknown info");
    return m;
}

static dnmx_error_return_t cb_init(const dx::mixin_info* info, void* p) {
    HarnessScope hs;
    int m = idx_of(info);
    if (int k = rt::callback_event()) return raise_fault(k);
    mix_construct(m, p, default_val(m), H_DEFAULT, 0);
    return 0;
}
static dnmx_error_return_t copy_init_impl(int m, void* p, const void* src) {
    auto& s = need_live(m, src, "copy construction");
    int val = s.val;
    uint32_t id = s.id;
    mix_construct(m, p, val, H_COPY, id, &s);
    return 0;
}
static dnmx_error_return_t cb_copy_init(const dx::mixin_info* info, void* p, const void* src) {
    HarnessScope hs;
    int m = idx_of(info);
    if (int k = rt::callback_event()) return raise_fault(k);
    return copy_init_impl(m, p, src);
}
static void move_init_impl(int m, void* p, void* src) {
    auto s = need_live(m, src, "move construction");
    auto* e = W.expect_obj[rt::cur()];
    W.expect_obj[rt::cur()] = nullptr;
    mix_construct(m, p, s.val, H_MOVEINIT, s.id);
    W.expect_obj[rt::cur()] = e;
    --W.constructed[rt::cur()];
    auto& d = W.inst[uintptr_t(p)];
    d.id = s.id; d.how = s.how; d.src = s.src;
    if (s.kid) d.kid = kid_move(*s.kid);
    mix_write(m, p, d.id, d.val);
    auto& o = W.inst[uintptr_t(src)];
    o.moved = true;
    o.val = MOVED_VAL;
    mix_write(m, src, o.id, MOVED_VAL);
}
static void cb_move_init(const dx::mixin_info* info, void* p, void* src) noexcept {
    HarnessScope hs;
    move_init_impl(idx_of(info), p, src);
}
static dnmx_error_return_t copy_asgn_impl(int m, void* p, const void* src) {
    int val = need_live(m, src, "copy assignment").val;
    auto& d = need_live(m, p, "copy assignment");
    auto& s = need_live(m, src, "copy assignment");
    if (d.kid && s.kid && p != src) kid_assign(*d.kid, *s.kid); // may throw
    d.val = val;
    mix_write(m, p, d.id, val);
    return 0;
}
static dnmx_error_return_t cb_copy_asgn(const dx::mixin_info* info, void* p, const void* src) {
    HarnessScope hs;
    int m = idx_of(info);
    if (int k = rt::callback_event()) return raise_fault(k);
    return copy_asgn_impl(m, p, src);
}
static void move_asgn_impl(int m, void* p, void* src) {
    auto& s = need_live(m, src, "move assignment");
    int val = s.val;
    auto& d = need_live(m, p, "move assignment");
    if (p == src) return;
    if (d.kid && s.kid) kid_move_assign(*d.kid, *s.kid);
    d.val = val;
    mix_write(m, p, d.id, val);
    s.val = MOVED_VAL;
    mix_write(m, src, s.id, MOVED_VAL);
}
static void cb_move_asgn(const dx::mixin_info* info, void* p, void* src) noexcept {
    HarnessScope hs;
    move_asgn_impl(idx_of(info), p, src);
}
static void destroy_impl(int m, void* p) {
    auto* i = inst_at(p);
    if (!i) fail("double-destroy", "mixin %d is destroyed where none is living", m);
    if (i->mix != m) fail("double-destroy", "mixin %d is destroyed, but there is an instance of mixin %d", m, i->mix);
    mix_verify(m, p, i->id, i->val, "destruction");
    ask_domain(m, true);
    if (i->kid) { auto* k = i->kid; i->kid = nullptr; kid_drop(k); }
    W.inst.erase(uintptr_t(p));
    int sz = mcfg(m).size;
    if (sz) {
        rt::access(p, size_t(sz), true);
        memset(p, 0xee, size_t(sz));
    }
}
static void cb_destroy(const dx::mixin_info* info, void* p) noexcept {
    HarnessScope hs;
    destroy_impl(idx_of(info), p);
}
static bool cb_eq(const dx::mixin_info* info, const void* a, const void* b) noexcept {
    HarnessScope hs;
    int m = idx_of(info);
    rt::sync_event();
    ask_domain(m, false);
    int va = need_live(m, a, "equals").val;
    auto *ka = inst_at(a)->kid, *kb = need_live(m, b, "equals").kid;
    if (ka && kb) kid_equal(*ka, *kb);
    return va == need_live(m, b, "equals").val;
}
static int cb_cmp(const dx::mixin_info* info, const void* a, const void* b) noexcept {
    HarnessScope hs;
    int m = idx_of(info);
    rt::sync_event();
    int va = need_live(m, a, "compare").val, vb = need_live(m, b, "compare").val;
    return va < vb ? -3 : va > vb ? 5 : 0;
}

template <int K> B<K>::B(const B& o) { HarnessScope hs; ev(); copy_init_impl(MD0 + K, this, &o); }
template <int K> B<K>::B(B&& o) noexcept { HarnessScope hs; move_init_impl(MD0 + K, this, &o); }
template <int K> B<K>& B<K>::operator=(const B& o) { HarnessScope hs; ev(); copy_asgn_impl(MD0 + K, this, &o); return *this; }
template <int K> B<K>& B<K>::operator=(B&& o) noexcept { HarnessScope hs; move_asgn_impl(MD0 + K, this, &o); return *this; }
template <int K> B<K>::~B() { HarnessScope hs; destroy_impl(MD0 + K, this); }

static void freed(uintptr_t begin, size_t size) {
    auto i = W.inst.lower_bound(begin);
    while (i != W.inst.end() && i->first <= begin + size) {
        if (i->first == begin + size && mcfg(i->second.mix).size) break; // of the next block
        if (mcfg(i->second.mix).fn & FN_DESTROY) fail("not-destroyed", "the memory of instance %u of mixin %d is freed, but it was not destroyed", i->second.id, i->second.mix);
        i = W.inst.erase(i);
    }
}

// ---- custom initializers ----
void init_with(const dx::init_new_args& a, int val) {
    HarnessScope hs;
    int m = idx_of(&a.info);
    if (a.target_index >= a.target_type.num_mixins() || a.target_type.mixins[a.target_index] != &a.info) fail("callback-args", "the initializer of mixin %d got the wrong index %u", m, unsigned(a.target_index));
    if (int k = rt::callback_event()) {
        user_throw(k);
    }
    mix_construct(m, a.mixin_buf, val, H_FUNC, 0);
}
dnmx_error_return_t c_init_with(dnmx_mutate_func_args a) {
    HarnessScope hs;
    int m = idx_of(a.info);
    auto* t = dx::type::from_c_handle(a.target_type);
    if (a.target_index >= t->num_mixins() || t->mixins[a.target_index] != a.info) fail("callback-args", "the initializer of mixin %d got the wrong index %u", m, unsigned(a.target_index));
    if (int k = rt::callback_event()) return raise_fault(k);
    mix_construct(m, a.mixin_buf, int(a.user_data), H_FUNC, 0);
    return 0;
}

// ---- payloads ----
template <int F> using MsgArg = std::conditional_t<F == 0, int, Tok>;
template <int F, int N> static int payload(std::conditional_t<F == 1, const MT<N>, MT<N>>* self, MsgArg<F> passed) {
    typedef typename MsgOf<F>::type Msg;
    typedef MsgArg<F> A;
    int arg = arg_of(passed);
    auto* mix = self;
    HarnessScope hs;
    rt::sync_event();
    msg_log[rt::cur()].push_back({F, N, self, arg});
    auto c = mcfg(N);
    if (!c.pod) need_live(N, self, "message");
    else if (c.size) rt::access(self, size_t(c.size), false);
    unsigned r = unsigned(msg_value(F, N, arg));
    int n = 0;
    if (int k = rt::callback_event()) user_throw(k);
    SutScope ss;
    switch (arg >> 8) {
    case MSG_NEXT: if (dynamix::has_next_impl_msg<Msg>(mix)) n = dynamix::call_next_impl_msg<Msg>(mix, A(arg)); break;
    case MSG_NEXT_FORCE: n = dynamix::call_next_impl_msg<Msg>(mix, A(arg)); break;
    case MSG_NEXT_SET: if (dynamix::has_next_bidder_set<Msg>(mix)) n = dynamix::call_next_bidder_set<Msg>(mix, A(arg)); break;
    case MSG_NEXT_TOP: if (dynamix::has_next_bidder_set<Msg>(mix)) n = dynamix::call_next_bidder_top<Msg>(mix, A(arg)); break;
    case MSG_NEXT_SET_FORCE: n = dynamix::call_next_bidder_set<Msg>(mix, A(arg)); break;
    case MSG_NEXT_TOP_FORCE: n = dynamix::call_next_bidder_top<Msg>(mix, A(arg)); break;
    default:;
    }
    return int((r + 31u * unsigned(n)) & 0xffffff);
}

static int world_payload[NF][NM]; // payloads which are not functions

static dx::feature_payload plain_payload(int f, int m) {
    if (f >= 4) return &world_payload[f][m];
    return with_msg(f, [&](auto F) {
        return with_mix(m, [&](auto N) { return reinterpret_cast<dx::feature_payload>(&payload<F.value, N.value>); });
    });
}

struct Combinator {
    MsgComb& c;
    void set_num_results(size_t n) { HarnessScope hs; c.num = n; }
    bool add_result(int r) { HarnessScope hs; c.got.push_back(r); return int(c.got.size()) != c.stop; }
};
template <int F> static int call_by_table(dx::object& o, int arg, bool multi) {
    typedef typename MsgOf<F>::type Msg;
    auto* obj = o.to_c_hanlde(); // its base
    dnmx_ftable_entry e = dnmx_ftable_at(obj->m_type, Msg::info.id);
    if (!e.begin) {
        if (!Msg::info.default_payload) throw user_error();
        return reinterpret_cast<typename Msg::traits::sig_t*>(Msg::info.default_payload)(o, MsgArg<F>(arg));
    }
    auto one = [&](const dnmx_ftable_payload* p) {
        const void* mix = F == 1 ? dnmx_object_unchecked_get_at(obj, p->mixin_index) : dnmx_object_unchecked_get_mut_at(obj, p->mixin_index);
        return reinterpret_cast<int (*)(const void*, MsgArg<F>)>(p->payload)(mix, MsgArg<F>(arg));
    };
    if (multi) for (auto i = e.top_bid_back; i != e.begin; --i) one(i);
    return one(e.begin);
}
int call_msg(int f, int iface, dx::object& o, int arg, MsgComb& comb) {
    SutScope ss;
    Combinator c{comb};
    if (iface == 2) {
        switch (f) {
        case 0: m0::traits::caller::call_with_v1_combinator(m0::info, c, o, int(arg)); break;
        case 1: m1::traits::caller::call_with_v1_combinator(m1::info, c, o, Tok(arg)); break;
        case 2: m2::traits::caller::call_with_v1_combinator(m2::info, c, o, Tok(arg)); break;
        default: m3::traits::caller::call_with_v1_combinator(m3::info, c, o, Tok(arg));
        }
        return 0;
    }
    switch (f) {
    case 0: return iface == 3 ? call_by_table<0>(o, arg, false) : iface ? m0::call(o, arg) : m0::traits::call_unicast(o, arg);
    case 1: return iface == 3 ? call_by_table<1>(o, arg, true) : iface ? m1::call(o, arg) : m1::traits::call_multicast(o, arg);
    case 2: return iface == 3 ? call_by_table<2>(o, arg, false) : iface ? m2::call(o, arg) : m2::traits::call_unicast(o, arg);
    default: return iface == 3 ? call_by_table<3>(o, arg, true) : iface ? m3::call(o, arg) : m3::traits::call_multicast(o, arg);
    }
}

// ---- allocators ----
namespace {
struct PoolRes final : std::pmr::memory_resource {
    int pool = 0;
    void* do_allocate(size_t n, size_t a) override { return rt::sut_alloc(n, a, pool); }
    void do_deallocate(void* p, size_t n, size_t a) override { rt::dealloc(p, n, a, pool); }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
} pools[8];

void alloc_check(const dx::mixin_info& info) {
    HarnessScope hs;
    int m = mix_index(&info);
    if (m < 0) fail("callback-args", "a mixin allocator got an unknown info");
}
struct MixAlloc final : dx::mixin_allocator {
    dx::byte_t* alloc_mixin_buf(const dx::mixin_info& info) override {
        alloc_check(info);
        return static_cast<dx::byte_t*>(rt::sut_alloc(info.obj_buf_size, info.obj_buf_alignment_and_mixin_offset, P_MIXA));
    }
    void dealloc_mixin_buf(dx::byte_t* p, const dx::mixin_info& info) noexcept override {
        alloc_check(info);
        rt::dealloc(p, info.obj_buf_size, info.obj_buf_alignment_and_mixin_offset, P_MIXA);
    }
};
void* c_alloc(const dnmx_mixin_info* info) {
    alloc_check(*info);
    if (rt::sut_alloc_fails()) return nullptr;
    return rt::alloc(info->obj_buf_size, info->obj_buf_alignment_and_mixin_offset, P_MIXB);
}
void c_dealloc(void* p, const dnmx_mixin_info* info) {
    alloc_check(*info);
    rt::dealloc(p, info->obj_buf_size, info->obj_buf_alignment_and_mixin_offset, P_MIXB);
}
}
std::pmr::memory_resource* pool_resource(int pool) { return pool ? &pools[pool] : std::pmr::get_default_resource(); }
dx::allocator pool_alloc(int pool) { return dx::allocator(pool_resource(pool)); }

// ---- rules ----
static void tm_rule(dx::type_mutation& tm, const RuleCfg& r) {
    auto& A = *W.mix[r.a];
    auto& Bm = *W.mix[r.b];
    dnmx_type_mutation_handle h = tm.to_c_hanlde();
    std::string_view na = W.mname[r.a], nb = W.mname[r.b];
    SutScope ss;
    auto has = [&] { return r.byname ? tm.has(na) != nullptr : r.capi ? dnmx_type_mutation_has(h, &A) : tm.has(A); };
    auto add = [&](const dx::mixin_info& i, std::string_view n) {
        if (r.byname == 2) tm.add_if_lacking(n);
        else if (r.byname) tm.safe_add_if_lacking(n);
        else if (r.capi) {
            bool was = dnmx_type_mutation_has(h, &i);
            if (!dnmx_type_mutation_add_if_lacking(h, &i) && !was) throw std::bad_alloc();
        }
        else tm.add_if_lacking(i);
    };
    auto rem = [&] { if (r.byname) tm.remove(na); else if (r.capi) dnmx_type_mutation_remove(h, &A); else tm.remove(A); };
    switch (r.kind) {
    case RK_ATTACH: if (has()) add(Bm, nb); break;
    case RK_REMOVE: rem(); break;
    case RK_BACK:
        if (has()) {
            if (r.byname) tm.to_back(na);
            else if (r.capi) dnmx_type_mutation_to_back(h, &A);
            else tm.to_back(A);
        }
        break;
    case RK_REPLACE: if (has()) { rem(); add(Bm, nb); } break;
    case RK_TOGGLE: if (has()) rem(); else add(A, na); break;
    case RK_DEDUP: if (r.capi) dnmx_type_mutation_dedup(h); else tm.dedup(); break;
    case RK_ADD: add(A, na); break;
    default: break;
    }
}
// the order of calls of the rules within one request (sequential phases: the rules in force are the same in all passes)
static struct { const void* tm; int op; bool open; bool later; std::vector<int> pass; size_t pos; } rseq;
static void rule_seq_note(const void* tm, int r) {
    auto before = [](int a, int b) {
        auto& x = W.rules[a]; auto& y = W.rules[b];
        if (x.cfg.prio != y.cfg.prio) return x.cfg.prio < y.cfg.prio;
        return a != b && x.name <= y.name;
    };
    int op = rt::cur_op();
    if (rseq.tm != tm || rseq.op != op || rseq.open) rseq = {tm, op, true, false, {}, 0};
    rseq.open = true;
    if (!rseq.later) {
        if (rseq.pass.empty() || before(rseq.pass.back(), r)) { rseq.pass.push_back(r); return; }
        rseq.later = true;
        rseq.pos = 0;
    }
    if (rseq.pass[rseq.pos] != r) fail("rule-order", "mutation rule %d ('%s') was called where %d ('%s') is next", r, W.rules[r].name.c_str(), rseq.pass[rseq.pos], W.rules[rseq.pass[rseq.pos]].name.c_str());
    rseq.pos = (rseq.pos + 1) % rseq.pass.size();
}
static dnmx_error_return_t rule_apply(dnmx_type_mutation_handle h, uintptr_t ud) {
    HarnessScope hs;
    if (ud >= NRALL) fail("callback-args", "a mutation rule got the wrong user data");
    if (!rt::concurrent()) rule_seq_note(h, int(ud));
    auto& r = W.rules[ud].cfg;
    if (int k = rt::callback_event()) return raise_fault(k);
    auto& tm = *dx::type_mutation::from_c_handle(h);
    if (&tm.dom != W.d0) fail("callback-args", "a mutation rule got a mutation of another domain");
    if (r.kind == RK_FAIL || r.kind == RK_THROW) {
        bool has = false;
        for (auto* m : tm.mixins) if (m == W.mix[r.a]) has = true;
        if (has) {
            if (r.kind == RK_THROW) user_throw(r.prio & 1 ? rt::Fault::cb_other : rt::Fault::cb_throw);
            return 7;
        }
        rseq.open = false;
        return 0;
    }
    if (W.cfg.nest && !(ud % 3)) kids_request();
    tm_rule(tm, r);
    rseq.open = false;
    return 0;
}

// ---- type classes ----
template <int T> static bool tc_match(dnmx_type_handle h) noexcept {
    HarnessScope hs;
    auto& t = *dx::type::from_c_handle(h);
    auto& c = W.cfg.tc[T];
    if (c.kind == 0) { for (auto* m : t.mixins) if (m == W.mix[c.a]) return true; return false; }
    if (c.kind == 1) return int(t.num_mixins()) >= c.a % 4;
    for (auto* m : t.mixins) if (m == W.mix[c.a]) return false;
    return true;
}

// ---- infos ----
template <typename T, typename... A> static T* world_new(A&&... a) {
    return new (rt::alloc(sizeof(T), alignof(T) < 8 ? 8 : alignof(T), P_WORLD)) T(std::forward<A>(a)...);
}

// the last ones: names are not terminated, and their characters are compared as unsigned
#define NAME(lit) std::string_view(lit, sizeof(lit) - 1)
static const std::string_view extra_names[] = {NAME(""), NAME("alpha"), NAME("alphabet"), NAME("a"), NAME("beta"), NAME(""), NAME("mix2"), NAME("zz"), NAME("m1"), NAME("mix"), NAME("a\0b"), NAME("a\0c"), NAME("a\0"), NAME("\xc3\xa9")};
static std::string pick_name(int n, const std::string& own) {
    if (n <= 0 || n >= int(sizeof extra_names / sizeof *extra_names)) return own;
    return std::string(extra_names[n]);
}

void fill_features(int m) {
    auto& c = W.cfg.mix[m];
    auto* info = W.mix[m];
    if (!c.nfeat) return;
    auto* f = static_cast<dx::feature_for_mixin*>(rt::alloc(sizeof(dx::feature_for_mixin) * size_t(c.nfeat), 8, P_WORLD));
    for (int i = 0; i < c.nfeat; ++i) {
        f[i].info = W.feat[c.feat[i].f];
        f[i].payload = plain_payload(c.feat[i].f, m);
        f[i].bid = c.feat[i].bid;
        f[i].priority = c.feat[i].prio;
    }
    info->set_features({f, size_t(c.nfeat)});
}

static void fill_info(int m) {
    auto& c = W.cfg.mix[m];
    auto* info = W.mix[m];
    W.mname[m] = pick_name(c.name, "mix" + std::to_string(m));
    info->name = dnmx_sv::from_std(W.mname[m]);
    if (c.size || c.align) info->set_size_alignment(dx::byte_size_t(c.size), dx::byte_size_t(c.align)); // else a tag with the values of a new info
    if (c.pod) {
        if (c.fn & FN_INIT) info->init = dnmx_mixin_common_init_func;
        if (c.fn & FN_COPY) info->copy_init = dnmx_mixin_common_copy_func;
        if (c.fn & FN_MOVE) info->move_init = pod_move_copies(m) ? dnmx_mixin_common_move_func_copy : dnmx_mixin_common_move_func;
        if (c.fn & FN_CASGN) info->copy_asgn = dnmx_mixin_common_copy_func;
        if (c.fn & FN_MASGN) info->move_asgn = pod_move_copies(m) ? dnmx_mixin_common_move_func_copy : dnmx_mixin_common_move_func;
        if (c.fn & FN_DESTROY) info->destroy = dnmx_mixin_common_destroy_func;
        if (c.fn & FN_EQ) info->equals = dnmx_mixin_common_eq_func;
        if (c.fn & FN_CMP) info->compare = dnmx_mixin_common_cmp_func;
    }
    else {
        if (c.fn & FN_INIT) info->init = cb_init;
        if (c.fn & FN_COPY) info->copy_init = cb_copy_init;
        if (c.fn & FN_MOVE) info->move_init = cb_move_init;
        if (c.fn & FN_CASGN) info->copy_asgn = cb_copy_asgn;
        if (c.fn & FN_MASGN) info->move_asgn = cb_move_asgn;
        if (c.fn & FN_DESTROY) info->destroy = cb_destroy;
        if (c.fn & FN_EQ) info->equals = cb_eq;
        if (c.fn & FN_CMP) info->compare = cb_cmp;
    }
    if (c.alloc) info->allocator = W.mixalloc[c.alloc - 1]->to_c_hanlde();
    info->order_priority = c.prio;
    info->force_external = c.force_ext;
    info->dependency = c.dep;
    info->user_data = uintptr_t(m);
}

// a payload which a described feature keeps
namespace {
int def_payloads;
struct DefPayload {
    char text[8];
    DefPayload() { ++def_payloads; memcpy(text, "default", 8); }
    DefPayload(const DefPayload& o) { ++def_payloads; memcpy(text, o.text, 8); }
    DefPayload& operator=(const DefPayload&) = delete;
    ~DefPayload() { --def_payloads; memset(text, '?', 8); }
};
dx::util::feature_info_data* feat_data[2];
}
void features_verify() {
    for (int f = 4; f < NF; ++f) {
        auto& i = feat_data[f - 4]->info;
        if (i.name.to_std() != W.fname[f]) fail("description", "the name of a described feature changed");
        if (f == 5 ? !i.default_payload || memcmp(i.default_payload, "default", 8) : !!i.default_payload) fail("description", "the default payload of described feature %d is wrong", f);
    }
    if (def_payloads != 1) fail("description", "%d default payloads live instead of one", def_payloads);
}

void mixins_init() {
    rt::on_free = freed;
    for (int i = 0; i < 8; ++i) pools[i].pool = i;
    for (int f = 0; f < NF; ++f) for (int m = 0; m < NM; ++m) world_payload[f][m] = f * 100 + m;
    // features
    W.feat[0] = const_cast<dx::feature_info*>(&m0::info);
    W.feat[1] = const_cast<dx::feature_info*>(&m1::info);
    W.feat[2] = const_cast<dx::feature_info*>(&m2::info);
    W.feat[3] = const_cast<dx::feature_info*>(&m3::info);
    static const char* const fn[] = {"m0", "m1", "m2", "m3", "f4", "f5"};
    static const std::string_view fx[] = {NAME(""), NAME("m0"), NAME("f4"), NAME("f5"), NAME(""), NAME("m"), NAME("f\0a"), NAME("f\0b")};
    for (int f = 0; f < NF; ++f) {
        W.fname[f] = fn[f];
        int n = f == 4 ? W.cfg.fname4 : f == 5 ? W.cfg.fname5 : 0;
        if (n > 0 && n < 8) W.fname[f] = fx[n];
        if (f < 4) continue;
        auto* d = feat_data[f - 4] = world_new<dx::util::feature_info_data>();
        W.feat[f] = &d->info;
        SutScope ss;
        std::string tmp = W.fname[f] + " and so on";
        tmp.resize(W.fname[f].size());
        DefPayload pl;
        dx::util::feature_info_data_builder b(*d, "another name");
        b.store_name(tmp);
        if (f == 5) b.default_payload_with(pl);
        tmp.assign(tmp.size(), '?');
        d->info.allow_clashes = f == 5;
    }
    // type classes
    static const dnmx_type_class_match_func match[] = {tc_match<0>, tc_match<1>, tc_match<2>, tc_match<3>};
    for (int t = 0; t < NTC; ++t) {
        static const std::string_view tn[] = {NAME(""), NAME("tc0"), NAME("tc1"), NAME(""), NAME("tc"), NAME("tc\0a"), NAME("tc\0b")};
        auto& c = W.cfg.tc[t];
        W.tcname[t] = c.name > 0 && c.name < 7 ? std::string(tn[c.name]) : "tc" + std::to_string(t);
        W.tc[t] = world_new<dx::type_class>(dx::type_class{dnmx_sv::from_std(W.tcname[t]), c.nofunc ? nullptr : match[t]});
    }
    // allocators
    W.mixalloc[0] = world_new<MixAlloc>();
    {
        SutScope ss;
        W.mixalloc[1] = dx::mixin_allocator::from_c_handle(dnmx_create_mixin_allocator(c_alloc, c_dealloc));
    }
    // mixins
    for (int m = 0; m < NM; ++m) {
        if (m >= MD0 && m < MD0 + NMD) continue;
        W.mix[m] = world_new<dx::mixin_info>(dnmx_make_mixin_info());
        fill_info(m);
    }
    for (int m = 0; m < NM; ++m) {
        if (m < MD0 || m >= MD0 + NMD) fill_features(m);
    }
    // rules
    for (int r = 0; r < NR; ++r) {
        static const std::string_view rn[] = {NAME(""), NAME("ra"), NAME("rb"), NAME("rab"), NAME("rabc"), NAME(""), NAME("canonicalize types"), NAME("ra\0a"), NAME("ra\0b"), NAME("r\xe9")};
        auto& c = W.cfg.rule[r];
        auto& ri = W.rules[r];
        ri.cfg = c;
        ri.name = c.name > 0 && c.name < 10 ? std::string(rn[c.name]) : "rule" + std::to_string(r);
        W.rule[r] = world_new<dx::mutation_rule_info>(dx::mutation_rule_info{dnmx_sv::from_std(ri.name), rule_apply, uintptr_t(r), c.prio});
        ri.ptr = W.rule[r];
    }
    // built mixins
    for (int k = 0; k < NMD; ++k) {
        auto& d = W.md[k];
        int m = MD0 + k;
        d.name = W.mname[m] = pick_name(W.cfg.mix[m].name, "mix" + std::to_string(m));
        {
            SutScope ss;
            d.data = new (rt::alloc(sizeof(dx::util::mixin_info_data), 16, P_WORLD)) dx::util::mixin_info_data();
            if (k == 0) dx::util::mixin_info_data_builder<B<0>>(*d.data, std::string_view(d.name));
            else if (k == 1) dx::util::mixin_info_data_builder<B<1>>(*d.data, std::string_view(d.name));
            else dx::util::mixin_info_data_builder<B<2>>(*d.data, dnmx_sv::from_std(d.name));
        }
        W.mix[m] = &d.data->info;
        auto& c = W.cfg.mix[m];
        auto& info = d.data->info;
        if (c.fn & FN_EQ) info.equals = k == 2 ? dnmx_mixin_common_eq_func : cb_eq;
        if (c.fn & FN_CMP) info.compare = k == 2 ? dnmx_mixin_common_cmp_func : cb_cmp;
        info.order_priority = c.prio;
        info.force_external = c.force_ext;
    }
}

void mixins_teardown() {
    features_verify();
    SutScope ss;
    for (auto* d : feat_data) {
        d->~feature_info_data();
        rt::dealloc(d, rt::unknown, rt::unknown, P_WORLD);
    }
    if (def_payloads) { HarnessScope hs; fail("description", "%d default payloads are left", def_payloads); }
    for (int k = 0; k < NMD; ++k) {
        W.md[k].data->~mixin_info_data();
        rt::dealloc(W.md[k].data, rt::unknown, rt::unknown, P_WORLD);
    }
    dnmx_destroy_mixin_allocator(W.mixalloc[1]->to_c_hanlde());
}

// ---- typed operations ----
namespace {
struct InitFunc {
    int val;
    void operator()(dx::init_new_args a) const { init_with(a, val); }
};
template <typename L> struct WrapOp final : AnyOp {
    L lib;
    template <typename F> WrapOp(F f) : lib(f()) {}
    void apply_to_type_mutation(dx::type_mutation& m) override {
        if constexpr (has_apply<L>(0)) lib.apply_to_type_mutation(m);
        else (void)m;
    }
    dx::object_mutate_op* to_obj_mutate(dx::object& o) override { return lib.to_obj_mutate(o); }
    template <typename T> static constexpr auto has_apply(int) -> decltype(std::declval<T&>().apply_to_type_mutation(std::declval<dx::type_mutation&>()), true) { return true; }
    template <typename T> static constexpr bool has_apply(long) { return false; }
};
template <typename F> AnyOp* wrap(F f) { return new WrapOp<decltype(f())>(f); }
template <int N> struct CommonInit final : dx::common_mixin_init<MT<N>> {
    int val;
    CommonInit(int v) : val(v) {}
    bool overrides_init() const noexcept override { return true; }
    void do_init(dx::init_new_args a) override { init_with(a, val); }
};
template <int N> struct CommonNoInit final : dx::common_mixin_init<MT<N>> {
    bool overrides_init() const noexcept override { return false; }
    void do_init(dx::init_new_args) override { HarnessScope hs; fail("wrong-init", "an initializer which does not override the initialization was called"); }
};
}

AnyOp* make_op(int what, int init, int by, int m, int val) {
    std::string_view name = W.mname[m];
    auto& info = *W.mix[m];
    switch (what) {
    case AO_REMOVE:
        if (by == AB_INFO) return wrap([&] { return dx::remove(info); });
        if (by == AB_NAME) return wrap([&] { return dx::remove(name); });
        return with_mix(m, [&](auto N) { return wrap([&] { return dx::remove<MT<N.value>>(); }); });
    case AO_BACK:
        if (by == AB_INFO) return wrap([&] { return dx::to_back(info); });
        if (by == AB_NAME) return wrap([&] { return dx::to_back(name); });
        return with_mix(m, [&](auto N) { return wrap([&] { return dx::to_back<MT<N.value>>(); }); });
    default:
        if (init == AI_FUNC) {
            if (by == AB_NAME) return wrap([&] { return dx::add(name, InitFunc{val}); });
            return wrap([&] { return dx::add(info, InitFunc{val}); });
        }
        if (init == AI_ARGS) return with_mix(m, [&](auto N) { return wrap([&] { return dx::add<MT<N.value>>(int(val)); }); });
        if (init == AI_COMMON) {
            if (val & 1) return with_mix(m, [&](auto N) { return wrap([&] { return CommonNoInit<N.value>(); }); });
            return with_mix(m, [&](auto N) { return wrap([&] { return CommonInit<N.value>(val); }); });
        }
        if (by == AB_INFO) return wrap([&] { return dx::add(info); });
        if (by == AB_NAME) return wrap([&] { return dx::add(name); });
        return with_mix(m, [&](auto N) { return wrap([&] { return dx::add<MT<N.value>>(); }); });
    }
}
AnyOp* make_to_op(int init, int by, int m, int val) {
    std::string_view name = W.mname[m];
    auto& info = *W.mix[m];
    if (init == AI_ARGS) return with_mix(m, [&](auto N) { return wrap([&] { return dx::construct<MT<N.value>>(int(val)); }); });
    if (init == AI_COMMON) return with_mix(m, [&](auto N) { return wrap([&] { return CommonInit<N.value>(val); }); });
    if (by == AB_NAME) return wrap([&] { return dx::construct(name, InitFunc{val}); });
    return wrap([&] { return dx::construct(info, InitFunc{val}); });
}

void typed_tm(dx::type_mutation& tm, int what, int m, bool& res) {
    with_mix(m, [&](auto N) {
        typedef MT<N.value> M;
        SutScope ss;
        switch (what) {
        case 0: res = &tm.add<M>() == W.mix[m]; break;
        case 1: res = tm.add_if_lacking<M>(); break;
        case 2: res = tm.remove<M>(); break;
        case 3: tm.to_back<M>(); res = true; break;
        default: res = tm.has<M>();
            if (res == tm.lacks<M>()) { HarnessScope hs; fail("type-mutation", "has and lacks of a type mutation disagree about mixin %d", m); }
        }
    });
}
void typed_gradual(void* gradual, int what, int m) {
    auto& g = *static_cast<dx::gradual_mutation*>(gradual);
    with_mix(m, [&](auto N) {
        typedef MT<N.value> M;
        SutScope ss;
        switch (what) {
        case 0: g.add<M>(); break;
        case 1: g.remove<M>(); break;
        case 2: g.to_back<M>(); break;
        default: g.add_if_lacking<M>();
        }
    });
}
void* typed_get(dx::object& o, int m) { return with_mix(m, [&](auto N) -> void* { SutScope ss; return o.get<MT<N.value>>(); }); }
bool typed_has(const dx::object& o, int m) { return with_mix(m, [&](auto N) { SutScope ss; return o.has<MT<N.value>>(); }); }
bool typed_type_has(const dx::type& t, int m) { return with_mix(m, [&](auto N) { SutScope ss; return t.has<MT<N.value>>(); }); }
bool typed_implements(const dx::type& t, int f, bool strong) {
    return with_msg(f, [&](auto F) {
        typedef typename MsgOf<F.value>::type Msg;
        SutScope ss;
        return strong ? t.implements_strong<Msg>() : t.implements<Msg>();
    });
}

// ---- descriptions of mixins with rules ----
template <int K> static bool md_step_t(const Op& op) {
    auto& d = W.md[K];
    int m = MD0 + K;
    int a = int(op.a[2]), b = int(op.a[3]), bid = int(op.a[4]), prio = int(op.a[5]);
    int step = int(op.a[1]);
    auto& data = *d.data;
    typedef dx::util::mixin_info_data_builder<B<K>> Builder;
    auto own_rule = [&](RuleCfg& c) -> int {
        if (d.nown >= NMDR || d.rules.size() >= 6) return -1;
        c.prio = prio;
        // no two rules of the same priority and name
        return NR + K * NMDR + d.nown;
    };
    auto add_own = [&](int r, const RuleCfg& c) {
        auto* p = data.mutation_rule_infos.back();
        W.rules[r].ptr = p;
        W.rules[r].cfg = c;
        W.rules[r].name = std::string(p->name.to_std());
        d.rules.push_back(r);
        ++d.nown;
    };
    dx::util::builder_perks perks{bid, prio};
    try {
        switch (step) {
        case 1: {
            static const char* const nn[] = {"stored name which is long enough to be allocated", "stored", "alpha", "a longer stored name of a built mixin than the other one"};
            std::string n = std::string(nn[a & 3]) + ((a & 3) == 2 ? "" : std::to_string(m));
            { SutScope ss; Builder(nullptr, data).store_name(n); }
            d.name = W.mname[m] = n;
            break;
        }
        case 2:
            { SutScope ss; Builder(nullptr, data).user_data(uintptr_t(a)); }
            d.ud = uintptr_t(a);
            break;
        case 3: {
            int f = a & 3;
            if (d.feats.size() >= 4) return true;
            for (auto& x : d.feats) if (x.f == f) return true;
            with_msg(f, [&](auto F) {
                typedef typename MsgOf<F.value>::type Msg;
                auto* fp = &payload<F.value, MD0 + K>;
                SutScope ss;
                if (b & 1) Builder(nullptr, data).template implements_by<Msg>(fp, perks);
                else Builder(nullptr, data).implements_with_payload(Msg::get_info_safe(), dx::fwd_any(reinterpret_cast<dx::feature_payload>(fp)), perks);
            });
            d.feats.push_back({f, bid, prio});
            d.payloads.push_back(plain_payload(f, m));
            d.pvals.push_back(0);
            break;
        }
        case 4: {
            int f = 4 + (a & 1);
            if (d.feats.size() >= 4) return true;
            for (auto& x : d.feats) if (x.f == f) return true;
            if (b & 1) { SutScope ss; Builder(nullptr, data).implements_with(*W.feat[f], int(b), perks); }
            else { SutScope ss; Builder(nullptr, data).implements_by(*W.feat[f], world_payload[f][m], perks); }
            d.feats.push_back({f, bid, prio});
            d.payloads.push_back(b & 1 ? data.feature_payloads.back().payload : &world_payload[f][m]);
            d.pvals.push_back(b & 1 ? b : f * 100 + m);
            break;
        }
        case 5: case 6: {
            RuleCfg c;
            c.kind = int(op.a[6]) % RK_N;
            c.a = a % NPLAIN; c.b = b % (MD0 + NMD);
            int r = own_rule(c);
            if (r < 0) return true;
            std::string n = "own rule of a built mixin " + std::to_string(r);
            {
                SutScope ss;
                if (step == 5) Builder(nullptr, data).adds_mutation_rule(dx::compat::pmr::string(n), rule_apply, uintptr_t(r), perks);
                else Builder(nullptr, data).adds_mutation_rule(rule_apply, uintptr_t(r), perks);
            }
            add_own(r, c);
            d.dep = true;
            if (step == 5 && W.rules[r].name != n) fail("description", "a rule of mixin %d was stored with the wrong name", m);
            break;
        }
        case 7: {
            int r = a % NR;
            if (d.rules.size() >= 6) return true;
            { SutScope ss; Builder(nullptr, data).adds_mutation_rule(*W.rule[r]); }
            d.rules.push_back(r);
            d.dep = true;
            break;
        }
        case 8: {
            RuleCfg c;
            int r = own_rule(c);
            if (r < 0) return true;
            c.kind = RK_ATTACH;
            bool also = b & 1;
            c.a = also ? m : (a & 3);
            c.b = also ? (a & 3) : m;
            with_mix(a & 3, [&](auto N) {
                if constexpr (N.value < 4) {
                    SutScope ss;
                    if (also) Builder(nullptr, data).on_mutation(dx::util::builder_literals::also_adds<MT<N.value>>(), perks, uintptr_t(r));
                    else Builder(nullptr, data).on_mutation(dx::util::builder_literals::attaches_to<MT<N.value>>(), perks, uintptr_t(r));
                }
            });
            add_own(r, c);
            if (!also) d.dep = true;
            break;
        }
        case 9:
            { SutScope ss; Builder(nullptr, data).uses_allocator(*W.mixalloc[a & 1]); }
            d.alloc = 1 + (a & 1);
            d.alloc_ptr = W.mixalloc[a & 1];
            break;
        case 10:
            { SutScope ss; Builder(nullptr, data).template uses_allocator<MixAlloc>(); }
            d.alloc = 1;
            d.alloc_ptr = data.stored_alloc.get();
            break;
        case 11:
            { SutScope ss; Builder(nullptr, data).dependency(a & 1); }
            d.dep = a & 1;
            break;
        default: break;
        }
        return true;
    }
    catch (other_error&) {
        d.dep = data.info.dependency;
        return false;
    }
    catch (std::exception&) {
        d.dep = data.info.dependency; // may be set by a failed step
        return false;
    }
}
bool md_step(int k, const Op& op) {
    bool r = k == 0 ? md_step_t<0>(op) : k == 1 ? md_step_t<1>(op) : md_step_t<2>(op);
    if (!r && !rt::fault_fired()) fail("spurious-failure", "a step of the description of mixin %d failed for no reason", MD0 + k);
    return r;
}

void md_verify(int k) {
    auto& d = W.md[k];
    auto& data = *d.data;
    int m = MD0 + k;
    auto bad = [&](const char* what) { fail("description", "the description of mixin %d has the wrong %s", m, what); };
    std::string name;
    {
        const char* b; size_t n;
        { SutScope ss; auto v = data.info.name.to_std(); b = v.data(); n = v.size(); }
        if (n && rt::in_arena(b)) rt::access(b, n, false);
        name.assign(b, n);
    }
    if (name != d.name) bad("name");
    auto fs = data.info.features_span();
    if (fs.size() != d.feats.size()) bad("number of features");
    if (fs.size()) rt::access(fs.data(), fs.size() * sizeof fs[0], false);
    for (size_t i = 0; i < fs.size(); ++i) {
        auto& f = fs[i];
        if (f.info != W.feat[d.feats[i].f] || f.bid != d.feats[i].bid || f.priority != d.feats[i].prio) bad("features");
        if (f.payload != d.payloads[i]) bad("payloads");
        if (d.feats[i].f >= 4) {
            if (rt::in_arena(f.payload)) rt::access(f.payload, sizeof(int), false);
            if (*static_cast<const int*>(f.payload) != d.pvals[i]) bad("payloads");
        }
    }
    std::vector<const dx::mutation_rule_info*> rs;
    { SutScope ss; auto& v = data.mutation_rule_infos; HarnessScope hs; for (size_t i = 0; i < v.size(); ++i) rs.push_back(v[i]); }
    if (rs.size() != d.rules.size()) bad("number of rules");
    for (size_t i = 0; i < rs.size(); ++i) {
        auto& r = W.rules[d.rules[i]];
        if (rs[i] != r.ptr) bad("rules");
        rt::access(r.ptr, sizeof *r.ptr, false);
        auto v = r.ptr->name.to_std();
        if (v.size() && rt::in_arena(v.data())) rt::access(v.data(), v.size(), false);
        if (std::string(v) != r.name || r.ptr->order_priority != r.cfg.prio || !r.ptr->apply || (d.rules[i] >= NR && r.ptr->user_data != uintptr_t(d.rules[i]))) bad("rules");
    }
    if (bool(data.info.dependency) != d.dep) bad("dependency status");
    if (d.alloc && (!data.info.allocator || dx::mixin_allocator::from_c_handle(data.info.allocator) != d.alloc_ptr)) bad("allocator");
    if (!d.alloc && data.info.allocator) bad("allocator");
    if (data.info.user_data != d.ud) bad("user data");
}
