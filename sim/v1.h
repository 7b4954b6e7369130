// The static world: mixins, messages, classes and domains which are defined by the macros of the library and of its v1 layer.
// The modules are v1msgs.cpp (messages), v1world.cpp (mixins and the like) and v1plug.cpp (a plugin); see DESIGN.md.
#pragma once
#include "rt.h"
#include <dynamix/v1compat/core.hpp>
#include <dynamix/v1compat/next_bidder.hpp>
#include <dynamix/v1compat/combinators.hpp>
#include <dynamix/v1compat/mutation_rule.hpp>
#include <dynamix/v1compat/common_mutation_rules.hpp>
#include <dynamix/v1compat/type_class.hpp>
#include <dynamix/declare_domain.hpp>
#include <dynamix/declare_type_class.hpp>
#include <dynamix/dm_this.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <vector>

namespace v1w {
// ---- provided by the executor (v1.cpp) ----
// the ledger of instances; construct: how 0 default, 1 with a value, 2 copy. They may throw
int construct(int mix, void* self, int val, int how, const void* src);
int take(int mix, void* self, void* src) noexcept; // a move
void assign(int mix, void* self, const void* src);
void destroy(int mix, void* self) noexcept;
int called(int msg, int mix, const void* self, const void* obj, int x); // a message reached a mixin
int next_result(int r, int next);
int defaulted(int msg, const void* obj, int x);

// an argument which is passed by value
struct tok {
    int val;
    explicit tok(int v) : val(v) {}
    tok(const tok& o) : val(o.val) {}
    tok(tok&& o) noexcept : val(o.val) { o.val = -1; }
    tok& operator=(const tok& o) { val = o.val; return *this; }
    tok& operator=(tok&& o) noexcept { val = o.val; o.val = -1; return *this; }
};

enum { M_U0, M_C1, M_K2, M_D3, M_E4, M_B5, M_OV1, M_OV2, M_W0, M_W1, M_P0, NVMSG }; // M_P0 is defined in the plugin
enum { CALL_PLAIN, CALL_NEXT, CALL_FORCE };

DYNAMIX_V1_MESSAGE_1(int, u0, int, x);
DYNAMIX_V1_CONST_MULTICAST_MESSAGE_1(int, c1, int, x);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_1(int, c1, int, x);
DYNAMIX_V1_MULTICAST_MESSAGE_2(void, k2, tok, t, std::vector<int>&, out);
DYNAMIX_V1_MESSAGE_1(int, d3, int, x);
DYNAMIX_V1_MULTICAST_MESSAGE_1(int, e4, int, x);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_1(int, e4, int, x);
DYNAMIX_V1_CONST_MULTICAST_MESSAGE_1(bool, b5, int, x);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_1(bool, b5, int, x);
DYNAMIX_MAKE_FUNC_TRAITS(ov);
DYNAMIX_V1_MESSAGE_1_OVERLOAD(ov_one, int, ov, int, x);
DYNAMIX_V1_CONST_MULTICAST_MESSAGE_2_OVERLOAD(ov_two, int, ov, int, x, int, y);
DYNAMIX_V1_CREATE_COMBINATOR_CALL_2_OVERLOAD(ov_two, int, ov, int, x, int, y);

// a domain and messages without the v1 layer
struct w2_domain;
DYNAMIX_DECLARE_DOMAIN(w2_domain);
DYNAMIX_DECLARE_MSG(w0_msg, w0, int, (dynamix::object&, int));
DYNAMIX_DECLARE_MSG(w1_msg, w1, int, (const dynamix::object&, int));
DYNAMIX_DECLARE_MSG(p0_msg, p0, int, (dynamix::object&, int));

// ---- mixins: 0..7 of the v1 domain, 8..9 of it in the plugin, 10..11 of w2, 12 of w2 in the plugin, 13 a dependency of w2 in the plugin ----
constexpr int NVM = 14, NVWORLD = 8;
constexpr int VM_P = 8, VM_Q = 9, VM_N0 = 10, VM_N1 = 11, VM_N2 = 12, VM_N3 = 13;

template <int I> class vbase {
public:
    vbase() : m_val(construct(I, this, 0, 0, nullptr)) {}
    explicit vbase(int v) : m_val(construct(I, this, v, 1, nullptr)) {}
    vbase(const vbase& o) : m_val(construct(I, this, 0, 2, &o)) {}
    vbase& operator=(const vbase& o) { assign(I, this, &o); m_val = o.m_val; return *this; }
    struct moved_t {};
    vbase(moved_t, vbase& o) noexcept : m_val(take(I, this, &o)) { o.m_val = -1; }
    ~vbase() { destroy(I, this); }
    int get_val() const { return m_val; }
    void set_val(int v) { m_val = v; }
private:
    int m_val;
};

#define V1W_CTORS(name, i) name() = default; explicit name(int v) : vbase<i>(v) {}
#define V1W_NEXT(msg, x) \
    if ((x) >> 8 == CALL_NEXT) { if (DYNAMIX_V1_HAS_NEXT_BIDDER(msg)) r = next_result(r, DYNAMIX_V1_CALL_NEXT_BIDDER(msg, x)); } \
    else if ((x) >> 8 == CALL_FORCE) r = next_result(r, DYNAMIX_V1_CALL_NEXT_BIDDER(msg, x));
#define V1W_U0(i) int u0(int x) { int r = called(M_U0, i, this, dm_v1_this, x); V1W_NEXT(u0_msg, x) return r; }
#define V1W_C1(i) int c1(int x) const { int r = called(M_C1, i, this, dm_v1_this, x); V1W_NEXT(c1_msg, x) return r; }
#define V1W_K2(i) void k2(tok t, std::vector<int>& out) { int r = called(M_K2, i, this, dm_v1_this, t.val); rt::HarnessScope hs; out.push_back(r); }
#define V1W_D3(i) int d3(int x) { return called(M_D3, i, this, dm_v1_this, x); }
#define V1W_E4(i) int e4(int x) { int r = called(M_E4, i, this, dm_v1_this, x); V1W_NEXT(e4_msg, x) return r; }
#define V1W_B5(i) bool b5(int x) const { return called(M_B5, i, this, dm_v1_this, x) & 1; }
#define V1W_OV(i) int ov(int x) { return called(M_OV1, i, this, dm_v1_this, x); } int ov(int x, int y) const { return called(M_OV2, i, this, dm_v1_this, x * 3 + y); }

DYNAMIX_V1_DECLARE_MIXIN(ma);
DYNAMIX_V1_DECLARE_MIXIN(mb);
DYNAMIX_V1_DECLARE_MIXIN(mc);
DYNAMIX_V1_DECLARE_MIXIN(md);
DYNAMIX_V1_DECLARE_MIXIN(me);
DYNAMIX_V1_DECLARE_MIXIN(mf);
DYNAMIX_V1_DECLARE_MIXIN(mg);
DYNAMIX_V1_DECLARE_MIXIN(mh);
class ma : public vbase<0> { public: V1W_CTORS(ma, 0) V1W_U0(0) V1W_C1(0) V1W_K2(0) };
class mb : public vbase<1> { public: V1W_CTORS(mb, 1) V1W_U0(1) V1W_C1(1) V1W_B5(1) V1W_D3(1) };
class mc : public vbase<2> { public: V1W_CTORS(mc, 2) V1W_U0(2) V1W_K2(2) V1W_E4(2) V1W_B5(2) };
class md : public vbase<3> { public: V1W_CTORS(md, 3) V1W_C1(3) V1W_E4(3) };
class me : public vbase<4> { public: V1W_CTORS(me, 4) V1W_C1(4) V1W_OV(4) };
class mf : public vbase<5> { public: V1W_CTORS(mf, 5) mf(const mf&) = delete; mf& operator=(const mf&) = delete; V1W_B5(5) V1W_OV(5) V1W_U0(5) };
class mg : public vbase<6> { public: V1W_CTORS(mg, 6) V1W_E4(6) };
class mh : public vbase<7> { public: V1W_CTORS(mh, 7) };

DYNAMIX_V1_TYPE_CLASS(tc_ab);

DYNAMIX_DECLARE_MIXIN(struct n0);
DYNAMIX_DECLARE_MIXIN(struct n1);
struct n0 : vbase<VM_N0> { V1W_CTORS(n0, 10)
    int w0(int x) { return called(M_W0, 10, this, dm_this, x); }
    int w1(int x) const { return called(M_W1, 10, this, dm_this, x); } };
struct n1 : vbase<VM_N1> { V1W_CTORS(n1, 11) // the only one which can be moved
    n1(const n1&) = default; n1& operator=(const n1&) = default; n1(n1&& o) noexcept : vbase<VM_N1>(moved_t(), o) {}
    int w0(int x) { return called(M_W0, 11, this, dm_this, x); }
    int w1(int x) const { return called(M_W1, 11, this, dm_this, x); } };
DYNAMIX_DECLARE_TYPE_CLASS(tc_n0);

// what the executor knows only by these
const dynamix::mixin_info* world_info(int mix);  // of the modules which are always there
extern const dynamix::type_class* world_classes[2];
typedef const dynamix::mixin_info* (*plug_info_fn)(int mix);
extern plug_info_fn plug_info;                   // set while the plugin is loaded
extern const dynamix::type_class* plug_class;
int bound_c1(const void* m, int x);
}
