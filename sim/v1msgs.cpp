// Module: definitions of messages.
#include "v1.h"
#include <dynamix/msg/define_msg.hpp>

namespace v1w {
DYNAMIX_MAKE_FUNC_TRAITS(w0);
DYNAMIX_MAKE_FUNC_TRAITS(w1);

DYNAMIX_V1_DEFINE_MESSAGE(u0);
DYNAMIX_V1_DEFINE_MESSAGE(c1);
DYNAMIX_V1_DEFINE_MESSAGE(k2);
DYNAMIX_V1_DEFINE_MESSAGE_1_WITH_DEFAULT_IMPL(int, d3, int, x) { return defaulted(M_D3, &dm_self, x); }
DYNAMIX_V1_DEFINE_MESSAGE_1_WITH_DEFAULT_IMPL(int, e4, int, x) { return defaulted(M_E4, &dm_self, x); }
DYNAMIX_V1_DEFINE_MESSAGE(b5);
DYNAMIX_V1_DEFINE_MESSAGE(ov_one);
DYNAMIX_V1_DEFINE_MESSAGE(ov_two);

static int w0_default(dynamix::object& o, int x) { return defaulted(M_W0, &o, x); }
DYNAMIX_DEFINE_MSG_EX(w0_msg, unicast, true, w0_default, w0, int, (dynamix::object&, int));
DYNAMIX_DEFINE_MSG(w1_msg, multicast, w1, int, (const dynamix::object&, int));
}
