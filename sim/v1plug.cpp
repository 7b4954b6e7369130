// Module: a plugin.
#include "v1.h"
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/mixin_allocator.hpp>

namespace v1w {
using namespace dynamix::v1compat;
DYNAMIX_MAKE_FUNC_TRAITS(w0);
DYNAMIX_MAKE_FUNC_TRAITS(w1);
DYNAMIX_MAKE_FUNC_TRAITS(p0);

// a message of the plugin: nothing but its own code unregisters it, when its mixins are gone
static int p0_default(dynamix::object& o, int x) { return defaulted(M_P0, &o, x); }
static struct at_end {
    at_end() { p0_msg::get_info_safe(); }
    ~at_end() {
        auto& info = const_cast<dynamix::common_feature_info&>(p0_msg::get_info_safe());
        if (info.id != dynamix::invalid_feature_id) dynamix::g::get_domain<w2_domain>().unregister_feature(info);
    }
} the_end;
DYNAMIX_DEFINE_MSG_EX(p0_msg, unicast, false, p0_default, p0, int, (dynamix::object&, int));

DYNAMIX_V1_DECLARE_MIXIN(mp);
DYNAMIX_V1_DECLARE_MIXIN(mq);
class mp : public vbase<VM_P> { public: V1W_CTORS(mp, 8) V1W_U0(8) V1W_C1(8) V1W_B5(8) };
class mq : public vbase<VM_Q> { public: V1W_CTORS(mq, 9) V1W_E4(9) V1W_D3(9) };
struct n2 : vbase<VM_N2> { V1W_CTORS(n2, 12)
    int w0(int x) { return called(M_W0, 12, this, dm_this, x); }
    int w1(int x) const { return called(M_W1, 12, this, dm_this, x); }
    int p0(int x) { return called(M_P0, 12, this, dm_this, x); } };
struct n3 : vbase<VM_N3> { V1W_CTORS(n3, 13)
    int w1(int x) const { return called(M_W1, 13, this, dm_this, x); }
    int p0(int x) { return called(M_P0, 13, this, dm_this, x); } };
DYNAMIX_DECLARE_MIXIN(n2);
DYNAMIX_DECLARE_MIXIN(n3);

// objects with n2 get n3
static dynamix::error_return_t attach_n3(dnmx_type_mutation_handle h, uintptr_t) {
    auto& mut = *dynamix::type_mutation::from_c_handle(h);
    if (mut.has<n2>()) mut.add_if_lacking<n3>();
    return dynamix::result_success;
}

// objects with n2 have no n1: a rule which is described by its own info
static dynamix::error_return_t drop_n1(dnmx_type_mutation_handle h, uintptr_t ud) {
    auto& mut = *dynamix::type_mutation::from_c_handle(h);
    if (ud == 77 && mut.has<n2>()) mut.remove<n1>();
    return dynamix::result_success;
}
// names in memory which goes with the module
static char rule_name[] = "n2 drops n1", mq_name[] = "core style in v1";
static dynamix::mutation_rule_info drops_n1 = {dnmx_sv::from_std(rule_name), drop_n1, 77, 0};

DYNAMIX_V1_DEFINE_MIXIN(mp, bid(2, u0_msg) & upriority(1, c1_msg) & bid(1, b5_msg));
DYNAMIX_DEFINE_MIXIN(dynamix::v1compat::domain_tag, mq)
    .name(mq_name)
    .implements<e4_msg_t>(-1_bid, 4_prio)
    .implements<d3_msg_t>(1_bid);
DYNAMIX_DEFINE_MIXIN(w2_domain, n2)
    .implements<w0_msg>(2_bid)
    .implements<w1_msg>()
    .implements<p0_msg>(1_bid)
    .adds_mutation_rule(drops_n1)
    .dependency(false);
DYNAMIX_DEFINE_MIXIN(w2_domain, n3)
    .implements<p0_msg>(1_bid, 3_prio)
    .implements<w1_msg>(1_bid)
    .adds_mutation_rule("n3 for n2", attach_n3);

DYNAMIX_DECLARE_TYPE_CLASS(tc_n2);
DYNAMIX_DEFINE_TYPE_CLASS_WITH(w2_domain, tc_n2, [](dnmx_type_handle h) noexcept { return dynamix::type::from_c_handle(h)->has<n2>(); });

static const dynamix::mixin_info* info(int m) {
    using namespace dynamix::g;
    switch (m) {
    case VM_P: return &get_mixin_info<mp>();
    case VM_Q: return &get_mixin_info<mq>();
    case VM_N2: return &get_mixin_info<n2>();
    case VM_N3: return &get_mixin_info<n3>();
    default: return nullptr;
    }
}
namespace {
struct exports { // what a program would get by symbol lookup
    exports() { plug_info = info; plug_class = &tc_n2::m_dynamix_type_class; }
    ~exports() { plug_info = nullptr; plug_class = nullptr; }
} the_exports;
}
}
