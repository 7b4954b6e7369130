// The simulated world: entities, plan, models. See DESIGN.md.
#pragma once
#include "rt.h"

#include <dynamix/domain.hpp>
#include <dynamix/domain_settings.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/dbg_dmp.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/mixin_allocator.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_class.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/globals.hpp>
#include <dynamix/object_mutation.hpp>
#include <dynamix/object_mutation_funcs.hpp>
#include <dynamix/object_mutate_ops.hpp>
#include <dnmx/domain.h>
#include <dnmx/object.h>
#include <dnmx/type.h>
#include <dnmx/type_mutation.h>
#include <dnmx/mutate.h>
#include <dnmx/mixin_allocator.h>

#include <map>
#include <string>
#include <vector>
#include <memory_resource>

namespace dx = dynamix;

// ---- sizes of the world ----
constexpr int NM = 15;      // mixins 0..9 plain, 10..12 built with mixin_info_data, 13 registered in D1, 14 never registered
constexpr int NPLAIN = 10;
constexpr int MD0 = 10, NMD = 3;
constexpr int M_FOREIGN = 13, M_NEVER = 14;
constexpr int NF = 6;       // 0..3 messages, 4 without clashes, 5 with default payload
constexpr int NTC = 4;
constexpr int NR = 6;       // plain rules
constexpr int NMDR = 3;     // own rules of each built mixin
constexpr int NRALL = NR + NMD * NMDR;
constexpr int NOBJ = 10;
constexpr int NTM = 4;
constexpr int NPOOL_OBJ = 3;

// pools of the arena
enum { P_GLOBAL = 0, P_OBJ1 = 1, P_OBJ2 = 2, P_OBJ3 = 3, P_DOM = 4, P_MIXA = 5, P_MIXB = 6, P_WORLD = 7 };

// ---- lists of mixins ----
typedef uint64_t ML; // count in the top nibble, item i in nibble i
inline int ml_n(ML l) { return int(l >> 60); }
inline int ml_at(ML l, int i) { return int(l >> (4 * i) & 15); }
[[noreturn]] void list_overflow(); // ends the run quietly: the models do not cover so long lists
inline ML ml_add(ML l, int m) {
    int n = ml_n(l);
    if (n >= 15) list_overflow();
    return ((l & ~(ML(15) << 60)) | ML(m) << (4 * n)) | ML(n + 1) << 60;
}
inline int ml_find(ML l, int m) { for (int i = 0; i < ml_n(l); ++i) if (ml_at(l, i) == m) return i; return -1; }
inline bool ml_has(ML l, int m) { return ml_find(l, m) >= 0; }
inline ML ml_erase(ML l, int i) { ML r = 0; for (int k = 0; k < ml_n(l); ++k) if (k != i) r = ml_add(r, ml_at(l, k)); return r; }
inline unsigned ml_mask(ML l) { unsigned r = 0; for (int i = 0; i < ml_n(l); ++i) r |= 1u << ml_at(l, i); return r; }
std::string ml_str(ML l);

// ---- configuration ----
enum { FN_INIT = 1, FN_COPY = 2, FN_MOVE = 4, FN_CASGN = 8, FN_MASGN = 16, FN_DESTROY = 32, FN_EQ = 64, FN_CMP = 128, FN_ALL = 255 };
struct FeatUse { int f, bid, prio; };
struct MixCfg {
    int size = 8, align = 8;
    int fn = FN_ALL;
    int pod = 0;      // uses the common C functions
    int alloc = 0;    // 0 none, 1 C++ mixin allocator, 2 C mixin allocator
    int dep = 0;
    int prio = 0;
    int name = 0;
    int force_ext = 0;
    int nfeat = 0;
    FeatUse feat[4] = {};
    int owner = -1;   // fiber which may register and use it during the concurrent phase, -1: stable
    bool external() const { return !(fn & FN_MOVE) || alloc || force_ext; }
};
enum RuleKind { RK_ATTACH, RK_REMOVE, RK_BACK, RK_REPLACE, RK_FAIL, RK_TOGGLE, RK_NOOP, RK_DEDUP, RK_THROW, RK_ADD, RK_N };
struct RuleCfg { int kind = RK_NOOP, a = 0, b = 0, prio = 0, name = 0, byname = 0, capi = 0; };
struct V1Rule { int kind = 0, a = 0, b = 0, c = 0, byname = 0; };
struct V1Cfg { // the static world (v1.cpp)
    int on = 0;
    int order = 0;      // of the modules of the program; 8: the program gives up its rules before the exit handlers run
    int plug_fiber = 0;
    V1Rule rule[6];
};
struct TCCfg { int kind = 0, a = 0, name = 0, nofunc = 0; };

struct Config {
    int canon = 0, dup_mixins = 0, dup_features = 0;
    int dom_pool = 0;  // domain uses its own memory resource
    int dom_c = 0;     // domain created with the C interface
    int fill = 0xcb;
    int reuse = 0; // freed memory is used again
    int nest = 0;  // some mixins own objects
    int gc_conc = 0;   // collecting types in the concurrent phase: only pinned types are used
    int nfibers = 0;
    MixCfg mix[NM];
    int fname4 = 0, fname5 = 0; // names of features 4 and 5 (0: own)
    RuleCfg rule[NR];
    TCCfg tc[NTC];
    V1Cfg v1;
};

enum OpKind : int {
    O_NONE,
    O_REG_MIXIN, O_UNREG_MIXIN, O_REG_FEAT, O_UNREG_FEAT, O_REG_TC, O_UNREG_TC,
    O_LOOKUP,
    O_ADD_RULE, O_REM_RULE,
    O_GET_TYPE, O_GC, O_NUM,
    O_TM_NEW, O_TM_EDIT, O_TM_GET, O_TM_DROP, O_TM_QUERY,
    O_OBJ_NEW, O_OBJ_DEL, O_OBJ_MUTATE, O_OBJ_MUT_TO, O_OBJ_CLEAR,
    O_OBJ_COPY, O_OBJ_COPY_FROM, O_OBJ_COPY_MATCH, O_OBJ_MOVE_NEW, O_OBJ_MOVE_ASGN, O_OBJ_MOVE_MATCH,
    O_OBJ_SEAL, O_OBJ_SETVAL, O_OBJ_CMP, O_OBJ_MSG, O_OBJ_READ,
    O_MD_BUILD, O_MD_REG, O_MD_UNREG,
    O_TRAVERSE, O_DUMP, O_TYPECHECK, O_DOM_MISC,
    // of the static world
    V_PLUG, V_NEW, V_DEL, V_MUTATE, V_COPY, V_MOVE, V_READ, V_MSG, V_SETVAL, V_RULE_ADD, V_RULE_REM, V_RULE_DROP, V_GET_TYPE, V_LOOKUP, V_GC,
    O_COUNT
};
extern const char* const op_names[O_COUNT];

constexpr int NARG = 8;
struct Op {
    int kind = 0;
    int fiber = 0; // 0: main (setup or tail), else worker
    int64_t a[NARG] = {};
    rt::Fault fault;
};

struct Plan {
    Config cfg;
    std::vector<Op> setup;
    std::vector<Op> work[rt::MAXF]; // 1..
    std::vector<Op> tail;
    rt::Sched sched;
    std::vector<rt::Switch> sw;
    size_t nops() const { size_t n = setup.size() + tail.size(); for (auto& w : work) n += w.size(); return n; }
};

std::string plan_text(const Plan& p);
bool plan_parse(const std::string& s, Plan& p, std::string& err);
uint64_t plan_hash(const Plan& p);

// op indices for the scheduler: setup i, fiber ops i (per fiber), tail: 100000 + i
// executes a plan in this process (a child); never returns normally on violations
void run_plan(const Plan& p);
void run_v1(const Plan& p); // the static world

// ---- live state of a run ----
struct Inst {
    int mix;
    uint32_t id;
    int val;
    int how;      // how it was constructed
    uint32_t src; // id of the copied instance
    bool moved;   // moved-out
    struct Kid* kid = nullptr; // an object which it owns
};
enum How { H_DEFAULT = 1, H_FUNC, H_ARGS, H_COPY, H_MOVEINIT };

struct ObjModel {
    bool alive = false;
    bool is_c = false;        // created by the C interface
    dx::object* ptr = nullptr;
    int pool = 0;             // of its allocator
    bool sealed = false;
    int owner = 0;            // fiber, -1: shared, read only in the concurrent phase
    int dom = 0;
    ML type = 0;
    uint32_t id[15] = {};     // instance ids, 0: pod
    int val[15] = {};
    uintptr_t addr[15] = {};
};

struct TMModel {
    bool alive = false;
    bool is_c = false;
    dx::type_mutation* ptr = nullptr;
    ML list = 0;
    int pool = 0;
    int owner = 0;
};

struct RuleInst { // a rule known to the world
    const dx::mutation_rule_info* ptr = nullptr;
    RuleCfg cfg;
    std::string name;
};

struct MDModel {
    dx::util::mixin_info_data* data = nullptr;
    std::string name;
    std::vector<FeatUse> feats;
    std::vector<const void*> payloads; // addresses of the stored ones
    std::vector<int> pvals;
    std::vector<int> rules; // rule indices in order
    int nown = 0;
    bool dep = false;
    int alloc = 0; // 1 by reference, 2 stored
    const void* alloc_ptr = nullptr;
    uintptr_t ud = 0;
};

struct World {
    const Plan* plan = nullptr;
    Config cfg;
    dx::domain* d0 = nullptr;
    dx::domain* d1 = nullptr;
    dx::mixin_info* mix[NM] = {};
    dx::feature_info* feat[NF] = {};
    dx::mutation_rule_info* rule[NR] = {};
    dx::type_class* tc[NTC] = {};
    RuleInst rules[NRALL];
    MDModel md[NMD];
    dx::mixin_allocator* mixalloc[2] = {};
    ObjModel obj[NOBJ];
    TMModel tm[NTM];
    std::map<uintptr_t, Inst> inst;
    uint32_t next_inst = 1;
    uint32_t constructed[rt::MAXF] = {};
    dx::object* expect_obj[rt::MAXF] = {}; // the object which is being mutated, if known
    std::string mname[NM], fname[NF], tcname[NTC];
};
extern World W;

MixCfg mcfg(int m);      // configuration (of built mixins: the current description)
int mix_index(const dx::mixin_info* p);
int feat_index(const dx::feature_info* p);
int rule_index(const dx::mutation_rule_info* p);
int tc_index(const dx::type_class* p);
std::pmr::memory_resource* pool_resource(int pool); // 0: default
dx::allocator pool_alloc(int pool);

// ---- mixins.cpp ----
inline bool pod_move_copies(int m) { return m % 3 == 1; } // plain mixins which are left as they are by a move
constexpr int MOVED_VAL = -7;
void mixins_init();     // creates infos
void mixins_teardown();
struct MsgLog { int f, m; const void* addr; int arg; };
extern std::vector<MsgLog> msg_log[rt::MAXF];
Inst* inst_at(const void* p);
int live_instances();
int default_val(int m);
void mix_construct(int m, void* p, int val, int how, uint32_t src); // on behalf of user code
void mix_write(int m, void* p, uint32_t id, int val);
void mix_verify(int m, const void* p, uint32_t id, int val, const char* where); // reads
int mix_cmp_model(int m, int va, int vb); // sign
// ---- kids.cpp: objects which are owned by mixins ----
struct Kid;
Kid* kid_new(int seed);
Kid* kid_copy(const Kid& s, int way);
void kid_assign(Kid& d, const Kid& s);
Kid* kid_move(Kid& s);
void kid_move_assign(Kid& d, Kid& s);
bool kid_equal(const Kid& a, const Kid& b);
void kid_check(const Kid& k, const char* where);
void kid_drop(Kid* k);
void kids_init();
void kids_request();
void kids_end();
// ---- crowd.cpp: a domain of many mixins ----
void crowd(uint64_t seed, uint64_t left_out, int most);
// throws or returns an error code for a fault of a callback
int raise_fault(int kind);
// what user code throws; only std::exception may pass through C functions
struct other_error {};
extern int in_c[rt::MAXF];
[[noreturn]] void user_throw(int kind);
struct user_error : std::exception { const char* what() const noexcept override { return "user error"; } };
void init_with(const dx::init_new_args& a, int val); // a custom initializer
dnmx_error_return_t c_init_with(dnmx_mutate_func_args a);

enum { MSG_PLAIN, MSG_NEXT, MSG_NEXT_SET, MSG_NEXT_TOP, MSG_NEXT_FORCE, MSG_NEXT_SET_FORCE, MSG_NEXT_TOP_FORCE, MSG_NMODES };
inline int msg_arg(int mode, int val) { return mode << 8 | (val & 255); }
int msg_value(int f, int m, int arg);
int msg_default_value(int f, int arg);
// calls a message by: 0 its traits, 1 its call function, 2 a combinator (which wants no more results after the given number), 3 the C tables
struct MsgComb { int stop; size_t num; std::vector<int> got; };
int call_msg(int f, int iface, dx::object& o, int arg, MsgComb& comb); // in a SUT scope; may throw

// run time versions of typed operations
struct AnyOp {
    virtual ~AnyOp() = default;
    virtual void apply_to_type_mutation(dx::type_mutation&) = 0;
    virtual dx::object_mutate_op* to_obj_mutate(dx::object&) = 0;
};
struct OpRef { // what is passed to mutate
    AnyOp* p;
    void apply_to_type_mutation(dx::type_mutation& m) { p->apply_to_type_mutation(m); }
    dx::object_mutate_op* to_obj_mutate(dx::object& o) { return p->to_obj_mutate(o); }
};
enum { AO_ADD, AO_REMOVE, AO_BACK };
enum { AI_DEFAULT, AI_FUNC, AI_ARGS, AI_COMMON }; // initializers
enum { AB_INFO, AB_NAME, AB_TYPED };              // how the mixin is given
AnyOp* make_op(int what, int init, int by, int m, int val);
AnyOp* make_to_op(int init, int by, int m, int val); // construct
void typed_tm(dx::type_mutation& tm, int what, int m, bool& res); // 0 add 1 add_if_lacking 2 remove 3 to_back 4 has
void typed_gradual(void* gradual, int what, int m);
void* typed_get(dx::object& o, int m);
bool typed_has(const dx::object& o, int m);
bool typed_type_has(const dx::type& t, int m);
bool typed_implements(const dx::type& t, int f, bool strong);

bool md_step(int k, const Op& op); // false: failed
void md_verify(int k);
void fill_features(int m);

// ---- domain model (dom.cpp) ----
struct DState {
    int8_t mix[16], feat[8];    // by id, -1 free
    uint8_t tc;                 // mask
    uint8_t rules[NRALL];
    std::vector<std::pair<ML, int>> types; // list -> index in the table of types, -1: not known
    DState();
    bool mix_reg(int m) const { for (int i = 0; i < 16; ++i) if (mix[i] == m) return true; return false; }
    int mix_id(int m) const { for (int i = 0; i < 16; ++i) if (mix[i] == m) return i; return -1; }
    int feat_id(int f) const { for (int i = 0; i < 8; ++i) if (feat[i] == f) return i; return -1; }
    int find_type(ML l) const { for (size_t i = 0; i < types.size(); ++i) if (types[i].first == l) return int(i); return -1; }
    std::string key() const;
    std::string str() const;
};

struct Snapshot {
    std::vector<std::pair<int, int>> mix, feat; // id, index
    std::vector<int> tcs;
    std::vector<std::pair<int, int>> rules;     // rule (-2: canonicalize), count
    std::vector<std::pair<ML, int>> types;
    std::vector<std::pair<ML, int>> queries;    // request -> type (-2: empty)
    bool counts_only = false;
    int n[5] = {};
};

enum RecKind { RC_REG_MIXIN, RC_UNREG_MIXIN, RC_REG_FEAT, RC_UNREG_FEAT, RC_REG_TC, RC_UNREG_TC,
    RC_LOOKUP_MIX_ID, RC_LOOKUP_MIX_NAME, RC_LOOKUP_FEAT_ID, RC_LOOKUP_FEAT_NAME, RC_LOOKUP_TC,
    RC_ADD_RULE, RC_REM_RULE, RC_GET_TYPE, RC_GC, RC_NUM_TYPES, RC_NUM_RULES, RC_SNAPSHOT, RC_MD_REG, RC_MD_UNREG, RC_ADD_BY_NAME };

struct Rec {
    int kind = 0;
    int fiber = 0, op = 0;
    uint64_t inv = 0, res = 0;
    int a = 0, b = 0;
    std::string name;
    bool ok = false, fault = false;
    // requests of types
    ML req = 0, list = 0;
    int type = -1;      // index in the type table; -2 the empty type
    bool has_local = false; // an object is then mutated to the type
    unsigned old_mask = 0, over_mask = 0, noinit_mask = 0;
    ML old_list = 0;
    bool local_must_fail = false, same_ok = false;
    unsigned named = 0; // mixins which must be registered for the edits by name (else the op fails)
    std::vector<int> keep, maybe; // GC: types which had objects all the time, types which had one for a part of it
    std::vector<int> rules; // MD
    Snapshot* snap = nullptr;
    std::string str() const;
};

struct TypeRow { const dx::type* ptr; ML list; uint64_t serial; };
int find_row(const dx::type* t); // -1: none
extern std::vector<TypeRow> ttab;
int type_row(const dx::type* t, ML list); // finds or adds; fails if the list differs

typedef std::vector<DState> DStates;
extern DStates DS; // possible states of domain 0

int eval_rules(const DState& s, ML req, ML& out); // 0 ok, else error
int eval_valid(const DState& s, ML l);            // 0 ok, else error
bool canon_less(const DState& s, int a, int b);
void dom_apply_now(Rec& r);         // sequential phases: filters DS
Rec& hist_begin(int kind);          // concurrent phases: history
void hist_end(Rec& r);
void lin_check();                   // at the end of the concurrent phase
const DState& ds();                 // the state, sequential phases (first of the possible ones)
bool ds_single();

// ---- ops.cpp ----
void exec_op(const Op& op, int opidx, int statidx);
void world_init();
void final_teardown();
