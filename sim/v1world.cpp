// Module: mixins, classes and a domain which are always there.
#include "v1.h"
#include <dynamix/define_domain.hpp>
#include <dynamix/common_mutation_rules.hpp>
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/domain_settings_builder.hpp>

namespace v1w {
using namespace dynamix::v1compat;
DYNAMIX_MAKE_FUNC_TRAITS(w0);
DYNAMIX_MAKE_FUNC_TRAITS(w1);

int bound_c1(const void* m, int x) { return called(M_C1, 6, m, object::of(m), x); }

DYNAMIX_V1_DEFINE_MIXIN(ma, u0_msg & c1_msg & upriority(1, k2_msg));
DYNAMIX_V1_DEFINE_MIXIN(mb, bid(1, u0_msg) & priority(2, c1_msg) & b5_msg & d3_msg);
DYNAMIX_V1_DEFINE_MIXIN(mc, bid(2, upriority(-1, u0_msg)) & k2_msg & e4_msg & upriority(3, bid(1, b5_msg)));
DYNAMIX_V1_DEFINE_MIXIN(md, dependency_mixin() & bid(-1, c1_msg) & upriority(-2, bid(-1, e4_msg)));
DYNAMIX_V1_DEFINE_MIXIN(me, mixin_name("a custom name") & user_data(4242) & bid(-1, c1_msg) & ov_one_msg & ov_two_msg);
DYNAMIX_V1_DEFINE_MIXIN(mf, b5_msg & bid(1, ov_one_msg) & ov_two_msg & bid(1, u0_msg));
DYNAMIX_V1_DEFINE_MIXIN(mg, bind(c1_msg, bound_c1) & bid(-1, e4_msg) & dependency_mixin(false));
DYNAMIX_V1_DEFINE_MIXIN(mh, none);

DYNAMIX_V1_DEFINE_TYPE_CLASS(tc_ab) { return type.has<ma>() && type.has<mb>(); }

DYNAMIX_DEFINE_DOMAIN(w2_domain, "w2", dynamix::domain_settings_builder());
DYNAMIX_DEFINE_MIXIN(w2_domain, n0)
    .implements<w0_msg>()
    .implements<w1_msg>(1_bid);
DYNAMIX_DEFINE_MIXIN(w2_domain, n1)
    .implements<w1_msg>(1_bid, -2_prio)
    .implements<w0_msg>(-1_bid)
    .on_mutation(also_adds<n0>{});
DYNAMIX_DEFINE_TYPE_CLASS_WITH(w2_domain, tc_n0, [](dnmx_type_handle h) noexcept { return dynamix::type::from_c_handle(h)->has<n0>(); });

const dynamix::mixin_info* world_info(int m) {
    using namespace dynamix::g;
    switch (m) {
    case 0: return &get_mixin_info<ma>();
    case 1: return &get_mixin_info<mb>();
    case 2: return &get_mixin_info<mc>();
    case 3: return &get_mixin_info<md>();
    case 4: return &get_mixin_info<me>();
    case 5: return &get_mixin_info<mf>();
    case 6: return &get_mixin_info<mg>();
    case 7: return &get_mixin_info<mh>();
    case 10: return &get_mixin_info<n0>();
    case 11: return &get_mixin_info<n1>();
    default: return nullptr;
    }
}
const dynamix::type_class* world_classes[2] = {&tc_ab::m_dynamix_type_class, &tc_n0::m_dynamix_type_class};
}
