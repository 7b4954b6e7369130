#include "gen.h"
#include <algorithm>
#include <sstream>
#include <string.h>

// ---- text ----
std::string plan_text(const Plan& p) {
    std::ostringstream o;
    auto& c = p.cfg;
    o << "dynamix-simulation-plan 1\n";
    o << "cfg " << c.canon << ' ' << c.dup_mixins << ' ' << c.dup_features << ' ' << c.dom_pool << ' ' << c.dom_c << ' ' << c.fill << ' ' << c.gc_conc << ' ' << c.nfibers << ' ' << c.fname4 << ' ' << c.fname5 << ' ' << c.reuse << ' ' << c.nest << '\n';
    if (!c.v1.on) for (int m = 0; m < NM; ++m) {
        auto& x = c.mix[m];
        o << "mix " << m << ' ' << x.size << ' ' << x.align << ' ' << x.fn << ' ' << x.pod << ' ' << x.alloc << ' ' << x.dep << ' ' << x.prio << ' ' << x.name << ' ' << x.force_ext << ' ' << x.owner << ' ' << x.nfeat;
        for (int i = 0; i < x.nfeat; ++i) o << ' ' << x.feat[i].f << ' ' << x.feat[i].bid << ' ' << x.feat[i].prio;
        o << '\n';
    }
    if (!c.v1.on) for (int r = 0; r < NR; ++r) {
        auto& x = c.rule[r];
        o << "rule " << r << ' ' << x.kind << ' ' << x.a << ' ' << x.b << ' ' << x.prio << ' ' << x.name << ' ' << x.byname << ' ' << x.capi << '\n';
    }
    if (!c.v1.on) for (int t = 0; t < NTC; ++t) o << "class " << t << ' ' << c.tc[t].kind << ' ' << c.tc[t].a << ' ' << c.tc[t].name << ' ' << c.tc[t].nofunc << '\n';
    if (c.v1.on) {
        o << "v1 " << c.v1.order << ' ' << c.v1.plug_fiber;
        for (auto& x : c.v1.rule) o << ' ' << x.kind << ' ' << x.a << ' ' << x.b << ' ' << x.c << ' ' << x.byname;
        o << '\n';
    }
    auto ops = [&](const char* ph, const std::vector<Op>& v) {
        for (auto& x : v) {
            o << ph << ' ' << x.fiber << ' ' << op_names[x.kind];
            int n = NARG;
            while (n && !x.a[n - 1]) --n;
            for (int i = 0; i < n; ++i) o << ' ' << x.a[i];
            if (x.fault.kind) o << " fault " << x.fault.kind << ' ' << x.fault.n;
            o << '\n';
        }
    };
    ops("setup", p.setup);
    for (int f = 1; f < rt::MAXF; ++f) ops("work", p.work[f]);
    ops("tail", p.tail);
    o << "sched " << p.sched.mode << ' ' << p.sched.seed << ' ' << p.sched.acc_period << ' ' << p.sched.sync_percent << ' ' << p.sched.writer_pref << ' ' << p.sched.npoints;
    for (int i = 0; i < p.sched.npoints; ++i) o << ' ' << p.sched.points[i];
    o << '\n';
    for (auto& s : p.sw) o << "switch " << s.fiber << ' ' << s.op << ' ' << s.ev << ' ' << s.target << '\n';
    o << "end\n";
    return o.str();
}

bool plan_parse(const std::string& s, Plan& p, std::string& err) {
    p = Plan();
    std::istringstream in(s);
    std::string line;
    bool head = false, end = false;
    int no = 0;
    while (std::getline(in, line)) {
        ++no;
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string w;
        l >> w;
        bool bad = false;
        auto& c = p.cfg;
        if (w == "dynamix-simulation-plan") { int v = 0; l >> v; head = v == 1; }
        else if (w == "cfg") l >> c.canon >> c.dup_mixins >> c.dup_features >> c.dom_pool >> c.dom_c >> c.fill >> c.gc_conc >> c.nfibers >> c.fname4 >> c.fname5 >> c.reuse >> c.nest;
        else if (w == "mix") {
            int m = -1;
            l >> m;
            if (m < 0 || m >= NM) bad = true;
            else {
                auto& x = c.mix[m];
                l >> x.size >> x.align >> x.fn >> x.pod >> x.alloc >> x.dep >> x.prio >> x.name >> x.force_ext >> x.owner >> x.nfeat;
                if (x.nfeat < 0 || x.nfeat > 4) bad = true;
                else for (int i = 0; i < x.nfeat; ++i) l >> x.feat[i].f >> x.feat[i].bid >> x.feat[i].prio;
            }
        }
        else if (w == "rule") {
            int r = -1;
            l >> r;
            if (r < 0 || r >= NR) bad = true;
            else { auto& x = c.rule[r]; l >> x.kind >> x.a >> x.b >> x.prio >> x.name >> x.byname >> x.capi; }
        }
        else if (w == "v1") {
            c.v1.on = 1;
            l >> c.v1.order >> c.v1.plug_fiber;
            for (auto& x : c.v1.rule) { l >> x.kind >> x.a >> x.b >> x.c >> x.byname; if (x.a < 0 || x.a > 7 || x.b < 0 || x.b > 7 || x.c < 0 || x.c > 7) bad = true; }
        }
        else if (w == "class") {
            int t = -1;
            l >> t;
            if (t < 0 || t >= NTC) bad = true;
            else l >> c.tc[t].kind >> c.tc[t].a >> c.tc[t].name >> c.tc[t].nofunc;
        }
        else if (w == "setup" || w == "work" || w == "tail") {
            Op x;
            std::string k;
            l >> x.fiber >> k;
            x.kind = -1;
            for (int i = 0; i < O_COUNT; ++i) if (k == op_names[i]) x.kind = i;
            if (x.kind < 0 || x.fiber < 0 || x.fiber >= rt::MAXF) bad = true;
            int n = 0;
            while (l >> k) {
                if (k == "fault") { l >> x.fault.kind >> x.fault.n; break; }
                if (n < NARG) x.a[n++] = strtoll(k.c_str(), nullptr, 10);
            }
            l.clear();
            if (!bad) (w == "setup" ? p.setup : w == "tail" ? p.tail : p.work[x.fiber]).push_back(x);
        }
        else if (w == "sched") {
            l >> p.sched.mode >> p.sched.seed >> p.sched.acc_period >> p.sched.sync_percent >> p.sched.writer_pref >> p.sched.npoints;
            if (p.sched.npoints < 0 || p.sched.npoints > 8) bad = true;
            else for (int i = 0; i < p.sched.npoints; ++i) l >> p.sched.points[i];
        }
        else if (w == "switch") { rt::Switch x{}; l >> x.fiber >> x.op >> x.ev >> x.target; p.sw.push_back(x); }
        else if (w == "end") { end = true; break; }
        else bad = true;
        if (bad || l.fail()) { err = "line " + std::to_string(no) + ": " + line; return false; }
    }
    if (!head || !end) { err = "not a complete plan"; return false; }
    return true;
}

uint64_t plan_hash(const Plan& p) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : plan_text(p)) { h ^= ch; h *= 1099511628211ull; }
    return h;
}

// ---- profiles ----
namespace {
struct WSet { std::vector<std::pair<int, int>> v; };
struct P0 {
    const char* id;
    int faults, conc, gc_conc, capi, ns, nw, nt;
    std::vector<std::pair<int, int>> w, wc;
};

const std::vector<std::pair<int, int>> base_reg = {
    {O_REG_MIXIN, 4}, {O_UNREG_MIXIN, 1}, {O_REG_FEAT, 1}, {O_ADD_RULE, 1}, {O_REG_TC, 1}};

std::vector<std::pair<int, int>> operator+(std::vector<std::pair<int, int>> a, const std::vector<std::pair<int, int>>& b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
}

const std::vector<P0>& profiles0() {
    static const std::vector<P0> v = {
        // id, faults, conc, gc, capi, setup, work per fiber, tail
        {"C01", 85, 6, 30, 25, 20, 6, 0,
            base_reg + std::vector<std::pair<int, int>>{{O_OBJ_NEW, 8}, {O_OBJ_MUTATE, 26}, {O_OBJ_MUT_TO, 26}, {O_OBJ_CLEAR, 2}, {O_OBJ_SETVAL, 3}, {O_OBJ_DEL, 1}, {O_OBJ_SEAL, 1}, {O_GC, 1}, {O_MD_BUILD, 1}, {O_MD_REG, 1}, {O_TM_NEW, 1}, {O_DOM_MISC, 2}},
            {{O_OBJ_NEW, 4}, {O_OBJ_MUTATE, 12}, {O_OBJ_MUT_TO, 12}, {O_OBJ_CLEAR, 1}, {O_GET_TYPE, 2}, {O_GC, 2}}},
        {"C02", 75, 10, 40, 30, 24, 6, 2,
            base_reg + std::vector<std::pair<int, int>>{{O_OBJ_NEW, 10}, {O_OBJ_DEL, 5}, {O_OBJ_MUTATE, 14}, {O_OBJ_MUT_TO, 14}, {O_OBJ_CLEAR, 4}, {O_OBJ_COPY, 4}, {O_OBJ_COPY_FROM, 4}, {O_OBJ_COPY_MATCH, 2}, {O_OBJ_MOVE_NEW, 4}, {O_OBJ_MOVE_ASGN, 4}, {O_OBJ_MOVE_MATCH, 3}, {O_OBJ_SETVAL, 2}, {O_GC, 2}, {O_TM_NEW, 2}, {O_TM_EDIT, 3}, {O_TM_GET, 1}, {O_TM_DROP, 1}, {O_MD_BUILD, 3}, {O_MD_REG, 2}, {O_MD_UNREG, 1}, {O_DOM_MISC, 1}, {O_GET_TYPE, 2}},
            {{O_OBJ_NEW, 5}, {O_OBJ_DEL, 3}, {O_OBJ_MUTATE, 8}, {O_OBJ_MUT_TO, 8}, {O_OBJ_CLEAR, 1}, {O_OBJ_COPY, 3}, {O_OBJ_MOVE_NEW, 2}, {O_GET_TYPE, 3}, {O_GC, 2}, {O_REG_MIXIN, 2}, {O_UNREG_MIXIN, 2}}},
        {"C03", 35, 6, 30, 20, 26, 6, 0,
            base_reg + std::vector<std::pair<int, int>>{{O_OBJ_NEW, 8}, {O_OBJ_DEL, 2}, {O_OBJ_MUTATE, 18}, {O_OBJ_MUT_TO, 18}, {O_OBJ_MOVE_NEW, 8}, {O_OBJ_MOVE_ASGN, 8}, {O_OBJ_COPY, 3}, {O_OBJ_COPY_FROM, 5}, {O_OBJ_MOVE_MATCH, 3}, {O_OBJ_SETVAL, 6}, {O_OBJ_CLEAR, 1}, {O_OBJ_READ, 2}, {O_MD_BUILD, 1}, {O_MD_REG, 1}},
            {{O_OBJ_NEW, 4}, {O_OBJ_MUTATE, 8}, {O_OBJ_MUT_TO, 8}, {O_OBJ_MOVE_NEW, 4}, {O_OBJ_MOVE_ASGN, 4}, {O_OBJ_SETVAL, 3}, {O_OBJ_READ, 3}}},
        {"C04", 25, 55, 15, 15, 16, 8, 3,
            base_reg + std::vector<std::pair<int, int>>{{O_REG_MIXIN, 3}, {O_ADD_RULE, 7}, {O_REM_RULE, 4}, {O_GET_TYPE, 26}, {O_UNREG_MIXIN, 2}, {O_GC, 2}, {O_TM_NEW, 1}, {O_TM_GET, 2}, {O_TM_EDIT, 2}, {O_OBJ_NEW, 2}, {O_NUM, 1}, {O_MD_BUILD, 3}, {O_MD_REG, 2}, {O_MD_UNREG, 1}, {O_TYPECHECK, 2}, {O_DOM_MISC, 2}},
            {{O_GET_TYPE, 30}, {O_ADD_RULE, 5}, {O_REM_RULE, 4}, {O_REG_MIXIN, 3}, {O_UNREG_MIXIN, 3}, {O_OBJ_NEW, 3}, {O_OBJ_MUTATE, 3}, {O_GC, 2}, {O_NUM, 1}, {O_TRAVERSE, 1}, {O_MD_REG, 1}, {O_MD_UNREG, 1}}},
        {"C05", 25, 100, 25, 25, 12, 9, 2,
            base_reg + std::vector<std::pair<int, int>>{{O_REG_MIXIN, 4}, {O_REG_FEAT, 2}, {O_GET_TYPE, 5}, {O_OBJ_NEW, 8}, {O_ADD_RULE, 2}, {O_TM_NEW, 1}, {O_MD_BUILD, 2}},
            {{O_GET_TYPE, 14}, {O_REG_MIXIN, 5}, {O_UNREG_MIXIN, 5}, {O_REG_FEAT, 4}, {O_UNREG_FEAT, 3}, {O_REG_TC, 2}, {O_UNREG_TC, 2}, {O_LOOKUP, 7}, {O_ADD_RULE, 4}, {O_REM_RULE, 4}, {O_GC, 4}, {O_NUM, 3}, {O_TRAVERSE, 3}, {O_DUMP, 1}, {O_MD_BUILD, 2}, {O_MD_REG, 3}, {O_MD_UNREG, 3}, {O_OBJ_NEW, 3}, {O_OBJ_DEL, 2}, {O_OBJ_MUTATE, 5}, {O_OBJ_MUT_TO, 4}, {O_OBJ_COPY, 2}, {O_OBJ_MSG, 2}, {O_OBJ_READ, 2}, {O_OBJ_CMP, 1}, {O_TM_NEW, 1}, {O_TM_EDIT, 1}, {O_TM_GET, 1}, {O_TYPECHECK, 1}, {O_DOM_MISC, 1}}},
        {"C06", 55, 35, 10, 40, 26, 9, 2,
            {{O_REG_MIXIN, 16}, {O_UNREG_MIXIN, 10}, {O_REG_FEAT, 10}, {O_UNREG_FEAT, 8}, {O_REG_TC, 6}, {O_UNREG_TC, 4}, {O_LOOKUP, 16}, {O_GET_TYPE, 4}, {O_OBJ_NEW, 2}, {O_OBJ_DEL, 1}, {O_MD_BUILD, 3}, {O_MD_REG, 3}, {O_MD_UNREG, 2}, {O_OBJ_READ, 1}, {O_TRAVERSE, 1}, {O_DOM_MISC, 2}, {O_TYPECHECK, 1}},
            {{O_REG_MIXIN, 14}, {O_UNREG_MIXIN, 12}, {O_REG_FEAT, 8}, {O_UNREG_FEAT, 6}, {O_REG_TC, 6}, {O_UNREG_TC, 5}, {O_LOOKUP, 18}, {O_GET_TYPE, 4}, {O_MD_REG, 2}, {O_MD_UNREG, 2}, {O_TRAVERSE, 1}}},
        {"C07", 20, 45, 40, 25, 22, 8, 3,
            {{O_REG_MIXIN, 12}, {O_UNREG_MIXIN, 9}, {O_REG_FEAT, 3}, {O_UNREG_FEAT, 3}, {O_ADD_RULE, 3}, {O_REM_RULE, 2}, {O_GET_TYPE, 18}, {O_GC, 8}, {O_NUM, 4}, {O_OBJ_NEW, 7}, {O_OBJ_DEL, 5}, {O_OBJ_MUTATE, 4}, {O_OBJ_CLEAR, 2}, {O_OBJ_COPY, 2}, {O_OBJ_MOVE_ASGN, 2}, {O_OBJ_MOVE_NEW, 1}, {O_MD_BUILD, 2}, {O_MD_REG, 2}, {O_MD_UNREG, 2}, {O_LOOKUP, 2}, {O_DOM_MISC, 2}},
            {{O_GET_TYPE, 16}, {O_REG_MIXIN, 6}, {O_UNREG_MIXIN, 8}, {O_GC, 7}, {O_NUM, 4}, {O_OBJ_NEW, 4}, {O_OBJ_DEL, 4}, {O_OBJ_MUTATE, 3}, {O_OBJ_COPY, 2}, {O_LOOKUP, 2}, {O_MD_REG, 1}, {O_MD_UNREG, 1}, {O_TRAVERSE, 1}}},
        {"C08", 10, 15, 10, 15, 26, 8, 0,
            {{O_REG_MIXIN, 8}, {O_UNREG_MIXIN, 3}, {O_REG_FEAT, 3}, {O_UNREG_FEAT, 2}, {O_ADD_RULE, 2}, {O_OBJ_NEW, 10}, {O_OBJ_MUTATE, 8}, {O_OBJ_MUT_TO, 5}, {O_OBJ_COPY, 3}, {O_OBJ_MOVE_NEW, 3}, {O_OBJ_MOVE_ASGN, 2}, {O_OBJ_DEL, 2}, {O_OBJ_MSG, 36}, {O_OBJ_READ, 3}, {O_TYPECHECK, 5}, {O_MD_BUILD, 4}, {O_MD_REG, 3}, {O_MD_UNREG, 1}, {O_GC, 1}, {O_OBJ_CLEAR, 1}},
            {{O_OBJ_MSG, 30}, {O_OBJ_MUTATE, 5}, {O_GET_TYPE, 4}, {O_REG_MIXIN, 3}, {O_UNREG_MIXIN, 3}, {O_OBJ_NEW, 3}, {O_OBJ_READ, 2}, {O_TYPECHECK, 2}, {O_REG_FEAT, 1}}},
        {"C09", 45, 30, 5, 25, 22, 8, 3,
            {{O_REG_MIXIN, 9}, {O_UNREG_MIXIN, 2}, {O_ADD_RULE, 16}, {O_REM_RULE, 9}, {O_GET_TYPE, 20}, {O_NUM, 3}, {O_OBJ_NEW, 3}, {O_OBJ_MUTATE, 7}, {O_TM_NEW, 2}, {O_TM_EDIT, 2}, {O_TM_GET, 3}, {O_MD_BUILD, 5}, {O_MD_REG, 3}, {O_MD_UNREG, 2}, {O_GC, 2}, {O_DUMP, 1}, {O_DOM_MISC, 2}},
            {{O_ADD_RULE, 10}, {O_REM_RULE, 8}, {O_GET_TYPE, 16}, {O_NUM, 4}, {O_OBJ_MUTATE, 3}, {O_TRAVERSE, 2}, {O_REG_MIXIN, 1}, {O_MD_REG, 2}, {O_MD_UNREG, 2}}},
        {"C10", 60, 8, 20, 25, 28, 6, 0,
            base_reg + std::vector<std::pair<int, int>>{{O_REG_MIXIN, 2}, {O_OBJ_NEW, 12}, {O_OBJ_DEL, 4}, {O_OBJ_MUTATE, 6}, {O_OBJ_MUT_TO, 5}, {O_OBJ_CLEAR, 2}, {O_OBJ_COPY, 10}, {O_OBJ_COPY_FROM, 10}, {O_OBJ_COPY_MATCH, 7}, {O_OBJ_MOVE_NEW, 6}, {O_OBJ_MOVE_ASGN, 7}, {O_OBJ_MOVE_MATCH, 7}, {O_OBJ_SETVAL, 9}, {O_OBJ_SEAL, 1}, {O_OBJ_CMP, 9}, {O_MD_BUILD, 1}, {O_MD_REG, 2}},
            {{O_OBJ_COPY, 8}, {O_OBJ_COPY_FROM, 8}, {O_OBJ_COPY_MATCH, 4}, {O_OBJ_MOVE_NEW, 3}, {O_OBJ_MOVE_ASGN, 3}, {O_OBJ_MOVE_MATCH, 3}, {O_OBJ_CMP, 5}, {O_OBJ_NEW, 4}, {O_OBJ_SETVAL, 4}, {O_OBJ_MUTATE, 4}, {O_OBJ_DEL, 2}}},
        {"C11", 30, 4, 20, 30, 26, 6, 0,
            base_reg + std::vector<std::pair<int, int>>{{O_OBJ_NEW, 12}, {O_OBJ_DEL, 5}, {O_OBJ_SEAL, 9}, {O_OBJ_MUTATE, 12}, {O_OBJ_MUT_TO, 14}, {O_OBJ_CLEAR, 8}, {O_OBJ_COPY, 5}, {O_OBJ_COPY_FROM, 9}, {O_OBJ_COPY_MATCH, 4}, {O_OBJ_MOVE_NEW, 6}, {O_OBJ_MOVE_ASGN, 9}, {O_OBJ_MOVE_MATCH, 3}, {O_OBJ_SETVAL, 4}, {O_OBJ_READ, 1}},
            {{O_OBJ_NEW, 6}, {O_OBJ_SEAL, 4}, {O_OBJ_MUTATE, 8}, {O_OBJ_MUT_TO, 8}, {O_OBJ_CLEAR, 4}, {O_OBJ_COPY_FROM, 4}, {O_OBJ_MOVE_ASGN, 4}}},
        {"C12", 45, 15, 20, 100, 26, 7, 2,
            base_reg + std::vector<std::pair<int, int>>{{O_REG_MIXIN, 3}, {O_UNREG_FEAT, 2}, {O_UNREG_TC, 1}, {O_LOOKUP, 4}, {O_ADD_RULE, 3}, {O_REM_RULE, 2}, {O_GET_TYPE, 4}, {O_GC, 2}, {O_NUM, 2}, {O_TM_NEW, 5}, {O_TM_EDIT, 10}, {O_TM_GET, 4}, {O_TM_DROP, 2}, {O_TM_QUERY, 2}, {O_OBJ_NEW, 8}, {O_OBJ_DEL, 3}, {O_OBJ_MUTATE, 8}, {O_OBJ_MUT_TO, 9}, {O_OBJ_CLEAR, 4}, {O_OBJ_COPY, 4}, {O_OBJ_COPY_FROM, 4}, {O_OBJ_MOVE_NEW, 3}, {O_OBJ_SEAL, 2}, {O_OBJ_CMP, 4}, {O_OBJ_READ, 2}, {O_TYPECHECK, 3}, {O_DOM_MISC, 3}, {O_MD_BUILD, 1}, {O_MD_REG, 1}},
            {{O_GET_TYPE, 5}, {O_REG_MIXIN, 4}, {O_UNREG_MIXIN, 3}, {O_LOOKUP, 4}, {O_OBJ_NEW, 5}, {O_OBJ_MUTATE, 4}, {O_OBJ_MUT_TO, 4}, {O_OBJ_COPY, 3}, {O_OBJ_COPY_FROM, 2}, {O_TM_NEW, 3}, {O_TM_EDIT, 4}, {O_TM_GET, 3}, {O_ADD_RULE, 2}, {O_REM_RULE, 2}, {O_GC, 1}, {O_NUM, 1}}},
        {"C13", 10, 100, 30, 20, 14, 9, 0,
            {{O_REG_MIXIN, 10}, {O_REG_FEAT, 2}, {O_ADD_RULE, 2}, {O_OBJ_NEW, 22}, {O_OBJ_MUTATE, 4}, {O_OBJ_SETVAL, 5}, {O_OBJ_COPY, 2}, {O_GET_TYPE, 2}, {O_REG_TC, 1}},
            {{O_OBJ_READ, 12}, {O_OBJ_MSG, 12}, {O_OBJ_CMP, 8}, {O_TYPECHECK, 7}, {O_OBJ_COPY, 6}, {O_OBJ_COPY_FROM, 4}, {O_OBJ_COPY_MATCH, 3}, {O_GET_TYPE, 6}, {O_REG_MIXIN, 4}, {O_UNREG_MIXIN, 4}, {O_GC, 5}, {O_OBJ_NEW, 3}, {O_OBJ_MUTATE, 3}, {O_ADD_RULE, 2}, {O_REM_RULE, 1}, {O_REG_FEAT, 1}, {O_TM_NEW, 1}, {O_OBJ_DEL, 1}}},
        {"C14", 70, 20, 5, 15, 24, 8, 2,
            {{O_REG_MIXIN, 6}, {O_UNREG_MIXIN, 1}, {O_REG_FEAT, 2}, {O_MD_BUILD, 24}, {O_MD_REG, 16}, {O_MD_UNREG, 9}, {O_ADD_RULE, 3}, {O_REM_RULE, 2}, {O_GET_TYPE, 10}, {O_OBJ_NEW, 5}, {O_OBJ_MUTATE, 4}, {O_OBJ_MSG, 3}, {O_OBJ_READ, 2}, {O_OBJ_DEL, 3}, {O_LOOKUP, 2}, {O_OBJ_COPY, 1}, {O_NUM, 1}},
            {{O_MD_BUILD, 5}, {O_MD_REG, 10}, {O_MD_UNREG, 9}, {O_GET_TYPE, 10}, {O_ADD_RULE, 3}, {O_REM_RULE, 2}, {O_LOOKUP, 3}, {O_NUM, 2}, {O_TRAVERSE, 1}, {O_OBJ_NEW, 2}, {O_REG_MIXIN, 2}}},
        {"C15", 15, 75, 10, 10, 14, 8, 2,
            {{O_REG_MIXIN, 10}, {O_UNREG_MIXIN, 3}, {O_REG_FEAT, 4}, {O_UNREG_FEAT, 2}, {O_REG_TC, 3}, {O_UNREG_TC, 1}, {O_ADD_RULE, 5}, {O_REM_RULE, 2}, {O_GET_TYPE, 10}, {O_OBJ_NEW, 4}, {O_GC, 2}, {O_DUMP, 12}, {O_TRAVERSE, 6}, {O_MD_BUILD, 2}, {O_MD_REG, 2}, {O_MD_UNREG, 1}, {O_DOM_MISC, 2}},
            {{O_DUMP, 9}, {O_TRAVERSE, 12}, {O_REG_MIXIN, 8}, {O_UNREG_MIXIN, 8}, {O_REG_FEAT, 4}, {O_UNREG_FEAT, 4}, {O_REG_TC, 3}, {O_UNREG_TC, 2}, {O_ADD_RULE, 4}, {O_REM_RULE, 4}, {O_GET_TYPE, 10}, {O_GC, 2}, {O_MD_REG, 2}, {O_MD_UNREG, 2}, {O_OBJ_NEW, 2}, {O_OBJ_MUTATE, 2}}},
        {"C16", 45, 10, 5, 30, 28, 8, 0,
            {{O_REG_MIXIN, 8}, {O_UNREG_MIXIN, 2}, {O_REG_FEAT, 1}, {O_TM_NEW, 12}, {O_TM_EDIT, 46}, {O_TM_GET, 6}, {O_TM_DROP, 4}, {O_TM_QUERY, 8}, {O_OBJ_NEW, 5}, {O_OBJ_MUTATE, 3}, {O_ADD_RULE, 3}, {O_REM_RULE, 1}, {O_GET_TYPE, 1}},
            {{O_TM_NEW, 8}, {O_TM_EDIT, 24}, {O_TM_GET, 6}, {O_TM_DROP, 2}, {O_TM_QUERY, 4}, {O_REG_MIXIN, 3}, {O_UNREG_MIXIN, 3}, {O_ADD_RULE, 1}, {O_GET_TYPE, 2}}},
        {"C17", 70, 45, 0, 0, 16, 6, 4,
            {{V_PLUG, 1}, {V_NEW, 4}, {V_DEL, 1}, {V_MUTATE, 14}, {V_COPY, 3}, {V_MOVE, 2}, {V_READ, 1}, {V_MSG, 12}, {V_SETVAL, 2}, {V_RULE_ADD, 8}, {V_RULE_REM, 4}, {V_RULE_DROP, 2}, {V_GET_TYPE, 3}, {V_LOOKUP, 1}, {V_GC, 1}},
            {{V_NEW, 3}, {V_DEL, 1}, {V_MUTATE, 10}, {V_COPY, 2}, {V_MOVE, 1}, {V_READ, 2}, {V_MSG, 6}, {V_RULE_ADD, 10}, {V_RULE_REM, 6}, {V_RULE_DROP, 2}, {V_GET_TYPE, 4}, {V_LOOKUP, 1}, {V_PLUG, 1}}},
        {"C18", 60, 60, 0, 0, 12, 6, 4,
            {{V_PLUG, 4}, {V_NEW, 4}, {V_DEL, 1}, {V_MUTATE, 12}, {V_COPY, 2}, {V_MOVE, 1}, {V_READ, 2}, {V_MSG, 4}, {V_SETVAL, 1}, {V_RULE_ADD, 2}, {V_RULE_REM, 1}, {V_GET_TYPE, 5}, {V_LOOKUP, 3}, {V_GC, 2}},
            {{V_NEW, 4}, {V_DEL, 1}, {V_MUTATE, 12}, {V_COPY, 2}, {V_MOVE, 1}, {V_READ, 2}, {V_MSG, 3}, {V_RULE_ADD, 1}, {V_RULE_REM, 1}, {V_GET_TYPE, 6}, {V_LOOKUP, 4}, {V_PLUG, 3}}},
    };
    return v;
}

std::vector<Profile> make_profiles() {
    std::vector<Profile> r;
    for (auto& p : profiles0()) {
        Profile x{};
        x.id = p.id; x.faults = p.faults; x.conc = p.conc; x.gc_conc = p.gc_conc; x.capi = p.capi;
        x.nsetup = p.ns; x.nwork = p.nw; x.ntail = p.nt;
        for (auto& y : p.w) x.w[y.first] += y.second;
        for (auto& y : p.wc) x.wc[y.first] += y.second;
        r.push_back(x);
    }
    return r;
}
}

const Profile* find_profile(const std::string& id) {
    static const auto v = make_profiles();
    for (auto& p : v) if (id == p.id) return &p;
    return nullptr;
}

// ---- generator ----
namespace {
struct Gen {
    const Profile& pr;
    Rng r;
    Plan p;
    // a rough guess of the state, to make operations which do something
    bool reg[NM] = {};
    bool alive[NOBJ] = {};
    int pool[NOBJ] = {};
    ML otype[NOBJ] = {};
    bool tm[NTM] = {};
    unsigned feats = 0, classes = 0;
    int fiber = 0;
    std::vector<ML> reqs;
    std::vector<int> favourite;
    int w[O_COUNT];
    int capi_pct;
    int long_lists;

    Gen(const Profile& pr_, uint64_t seed) : pr(pr_), r(seed) {}

    int any_fiber_owner(int slot) { return slot >= 7 ? -1 : slot % p.cfg.nfibers + 1; }
    bool usable_mix(int m) { return !fiber || p.cfg.mix[m].owner < 0 || p.cfg.mix[m].owner == fiber; }
    int mix() {
        for (int i = 0; i < 12; ++i) {
            int m = r.chance(70) && !favourite.empty() ? favourite[size_t(r.below(int(favourite.size())))] : r.below(NM);
            if (!usable_mix(m)) continue;
            if ((m == M_FOREIGN || m == M_NEVER) && !r.chance(15)) continue;
            return m;
        }
        return r.below(4);
    }
    int reg_mix() {
        for (int i = 0; i < 12; ++i) { int m = mix(); if (reg[m]) return m; }
        return mix();
    }
    ML list(int max) {
        if (!reqs.empty() && r.chance(35)) {
            ML l = reqs[size_t(r.below(int(reqs.size())))];
            bool ok = true;
            for (int i = 0; i < ml_n(l); ++i) if (!usable_mix(ml_at(l, i)) || (!reg[ml_at(l, i)] && !r.chance(8))) ok = false;
            if (ok && ml_n(l) <= max) {
                if (r.chance(25)) { // permuted
                    std::vector<int> v;
                    for (int i = 0; i < ml_n(l); ++i) v.push_back(ml_at(l, i));
                    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[size_t(r.below(int(i)))]);
                    ML q = 0;
                    for (int m : v) q = ml_add(q, m);
                    l = q;
                }
                return l;
            }
        }
        int n = r.chance(6) ? 0 : r.range(1, long_lists ? max : std::min(max, 3));
        ML l = 0;
        for (int i = 0; i < n; ++i) {
            int m = r.chance(97) ? reg_mix() : mix();
            if (ml_has(l, m) && !r.chance(4)) continue;
            l = ml_add(l, m);
        }
        if (reqs.size() < 24) reqs.push_back(l);
        else reqs[size_t(r.below(24))] = l;
        return l;
    }
    bool capi() { return r.chance(capi_pct); }
    int slot(bool live, bool write = true) {
        int best = -1;
        for (int i = 0; i < 16; ++i) {
            int s = r.below(NOBJ);
            if (fiber) {
                int o = any_fiber_owner(s);
                if (o != fiber && !(o == -1 && !write && live)) continue;
            }
            best = s;
            if (alive[s] == live) return s;
        }
        return best < 0 ? 0 : best;
    }
    int live_slot(bool write = true) { return slot(true, write); }
    int free_slot() { return slot(false, true); }

    void config() {
        auto& c = p.cfg;
        c.canon = r.chance(25);
        c.dup_mixins = r.chance(20);
        c.dup_features = r.chance(20);
        c.dom_pool = r.chance(50);
        c.dom_c = r.chance(pr.capi);
        static const int fills[] = {0xcb, 0x00, 0xff, 0x5a};
        c.fill = fills[r.below(4)];
        c.reuse = r.chance(25);
        c.nest = r.chance(30) ? r.range(1, 3) : 0;
        c.nfibers = r.chance(pr.conc) ? r.range(2, 4) : 0;
        c.gc_conc = c.nfibers && r.chance(pr.gc_conc);
        c.fname4 = r.chance(15) ? r.below(8) : 0;
        c.fname5 = r.chance(15) ? r.below(8) : 0;
        int odd = r.below(5); // how unusual mixins are
        bool names = r.chance(20);
        int hot = r.chance(pr.id == std::string("C08") ? 60 : 20) ? r.below(5) : -1; // a feature which most mixins have
        for (int m = 0; m < NM; ++m) {
            auto& x = c.mix[m];
            static const int sizes[] = {1, 4, 8, 8, 16, 24, 40, 64, 100, 3, 200};
            static const int aligns[] = {1, 2, 4, 8, 8, 8, 16, 32, 64};
            x.size = r.chance(4) ? 0 : sizes[r.below(11)];
            x.align = !x.size && r.chance(50) ? 0 : aligns[r.below(9)];
            x.fn = FN_ALL;
            int miss = odd * 5;
            if (r.chance(miss)) x.fn &= ~FN_INIT;
            if (r.chance(miss)) x.fn &= ~FN_COPY;
            if (r.chance(miss + 10)) x.fn &= ~FN_MOVE;
            if (r.chance(miss)) x.fn &= ~FN_CASGN;
            if (r.chance(miss + 5)) x.fn &= ~FN_MASGN;
            if (r.chance(odd * 3)) x.fn &= ~FN_DESTROY;
            if (r.chance(miss + 5)) x.fn &= ~FN_EQ;
            if (r.chance(miss + 5)) x.fn &= ~FN_CMP;
            x.pod = r.chance(12);
            x.alloc = r.chance(20) ? r.range(1, 2) : 0;
            x.force_ext = r.chance(12);
            x.prio = r.chance(35) ? r.range(-2, 2) : 0;
            if (r.chance(2)) x.prio = r.chance(50) ? INT32_MAX : INT32_MIN;
            x.name = names && r.chance(35) ? r.below(14) : 0;
            x.dep = (m < MD0 || m >= MD0 + NMD) && m != M_FOREIGN && m != M_NEVER && r.chance(odd * 3);
            x.nfeat = 0;
            if (hot >= 0 && r.chance(75)) x.feat[x.nfeat++] = {hot, r.chance(65) ? 0 : r.range(-1, 1), hot == 2 || hot == 4 ? r.range(-9, 9) : r.range(-1, 1)};
            int want = x.nfeat ? r.below(3) : r.chance(65) ? r.range(1, 4) : 0;
            for (int i = 0; i < want; ++i) {
                int f = r.below(NF);
                if (f == 4 && r.chance(60)) f = r.below(4);
                bool dup = false;
                for (int k = 0; k < x.nfeat; ++k) if (x.feat[k].f == f) dup = true;
                if (dup) continue;
                x.feat[x.nfeat++] = {f, r.chance(60) ? 0 : r.range(-1, 2), r.chance(60) ? 0 : r.range(-2, 2)};
            }
            for (int i = 0; i < x.nfeat; ++i) { // extremes
                static const int ext[] = {INT32_MIN, INT32_MAX, INT32_MIN + 1, INT32_MAX - 1};
                if (r.chance(3)) x.feat[i].bid = ext[r.below(4)];
                if (r.chance(3)) x.feat[i].prio = ext[r.below(4)];
            }
            if (m == M_FOREIGN || m == M_NEVER) x.nfeat = 0;
            if (m == M_NEVER && r.chance(30)) x.nfeat = 0;
            if (m >= MD0 && m < MD0 + NMD) { x.nfeat = 0; x.fn = FN_ALL & ~(r.chance(60) ? 0 : FN_EQ) & ~(r.chance(60) ? 0 : FN_CMP); x.alloc = 0; x.pod = 0; x.size = 8; x.align = 8; }
        }
        c.mix[M_FOREIGN].name = 0;
        // features with few users can be registered on their own
        if (c.nfibers && r.chance(60)) for (int m = 0; m < NM; ++m) {
            auto& x = c.mix[m];
            int n = 0;
            for (int i = 0; i < x.nfeat; ++i) if (x.feat[i].f < 4) x.feat[n++] = x.feat[i];
            x.nfeat = n;
        }
        // which mixins are registered by workers
        if (c.nfibers) {
            for (int m = 4; m < MD0 + NMD; ++m) if (r.chance(m < MD0 ? 30 : 45)) {
                c.mix[m].owner = r.range(1, c.nfibers);
                c.mix[m].dep = 0;
            }
        }
        for (int i = 0; i < NR; ++i) {
            auto& x = c.rule[i];
            static const int kinds[] = {RK_ATTACH, RK_ATTACH, RK_REMOVE, RK_BACK, RK_REPLACE, RK_FAIL, RK_TOGGLE, RK_NOOP, RK_DEDUP, RK_THROW, RK_ADD, RK_BACK};
            x.kind = kinds[r.below(12)];
            if (x.kind == RK_TOGGLE && r.chance(50)) x.kind = RK_BACK;
            x.a = r.below(r.chance(70) ? 4 : MD0 + NMD);
            x.b = r.below(r.chance(70) ? 6 : MD0 + NMD);
            if (r.chance(2)) x.b = r.chance(50) ? M_FOREIGN : M_NEVER;
            x.prio = r.chance(60) ? 0 : r.range(-3, 3);
            if (r.chance(2)) x.prio = r.chance(50) ? INT32_MAX - 1 : INT32_MIN;
            x.name = r.chance(40) ? r.below(10) : 0;
            x.byname = r.chance(15) ? r.range(1, 2) : 0;
            x.capi = r.chance(pr.capi);
            if (i && r.chance(8)) { // a twin
                auto& y = c.rule[r.below(i)];
                if (!y.name) y.name = 1 + r.below(4);
                x = y;
            }
        }
        for (int t = 0; t < NTC; ++t) {
            c.tc[t].kind = r.below(3);
            c.tc[t].a = r.below(6);
            c.tc[t].name = r.chance(30) ? r.below(7) : 0;
            c.tc[t].nofunc = r.chance(4);
        }
        int nfav = r.range(3, 8);
        for (int i = 0; i < nfav; ++i) favourite.push_back(r.below(r.chance(75) ? NPLAIN : MD0 + NMD));
    }

    int64_t edit() {
        int what = r.chance(45) ? 0 : r.chance(55) ? 1 : r.chance(50) ? 2 : 3;
        int m = what == 0 || what == 3 ? reg_mix() : mix();
        int init = r.chance(45) ? 0 : r.below(4);
        int by = r.below(3);
        return int64_t(1) << 28 | what | m << 4 | init << 8 | by << 12 | int64_t(r.below(4096)) << 16;
    }
    // an edit which fits a list
    int64_t edit_for(ML& l) {
        int64_t e = edit();
        int what = int(e & 15), m = int(e >> 4 & 15);
        if (r.chance(90)) {
            if ((what == 0) && ml_has(l, m) && r.chance(85)) { for (int i = 0; i < 6 && ml_has(l, m); ++i) m = reg_mix(); }
            if ((what == 1 || what == 2) && !ml_has(l, m) && ml_n(l) && r.chance(85)) m = ml_at(l, r.below(ml_n(l)));
        }
        e = (e & ~int64_t(0xf0)) | m << 4;
        if (what == 0 || (what == 3 && !ml_has(l, m))) { if (ml_n(l) < 8) l = ml_add(l, m); }
        else if (what == 1) { if (ml_has(l, m)) l = ml_erase(l, ml_find(l, m)); }
        return e;
    }

    Op op(int kind) {
        Op o;
        o.kind = kind;
        o.fiber = fiber;
        auto* a = o.a;
        switch (kind) {
        case O_REG_MIXIN: {
            int m = mix();
            for (int i = 0; i < 8 && (reg[m] || m >= MD0); ++i) m = mix();
            if (fiber && r.chance(80)) for (int i = 0; i < 8; ++i) { int k = r.range(4, NPLAIN - 1); if (p.cfg.mix[k].owner == fiber) { m = k; break; } }
            a[0] = m; a[1] = capi();
            if (m < MD0) reg[m] = true;
            break;
        }
        case O_UNREG_MIXIN: {
            int m = reg_mix();
            if (fiber && r.chance(85)) for (int i = 0; i < 8; ++i) { int k = r.range(4, NPLAIN - 1); if (p.cfg.mix[k].owner == fiber) { m = k; break; } }
            if (m >= MD0) m = r.below(NPLAIN);
            if (!fiber && r.chance(3)) m = M_FOREIGN;
            a[0] = m; a[1] = capi();
            bool used = false;
            for (int s = 0; s < NOBJ; ++s) if (alive[s] && ml_has(otype[s], m)) used = true;
            if (!used) reg[m] = false;
            break;
        }
        case O_REG_FEAT: a[0] = fiber ? r.range(4, 5) : r.below(NF); a[1] = capi(); break;
        case O_UNREG_FEAT: a[0] = fiber ? r.range(4, 5) : r.below(NF); a[1] = capi(); break;
        case O_REG_TC: case O_UNREG_TC:
            a[0] = r.below(NTC); a[1] = capi();
            if (fiber && r.chance(80)) for (int i = 0; i < 8 && int(a[0]) % p.cfg.nfibers + 1 != fiber; ++i) a[0] = r.below(NTC);
            break;
        case O_LOOKUP: a[0] = r.below(5); a[1] = r.chance(5) ? -1 : r.chance(70) ? r.below(10) : r.below(20); a[2] = capi(); break;
        case O_ADD_RULE: a[0] = r.below(NR); a[1] = capi(); a[2] = r.chance(3); break;
        case O_REM_RULE: a[0] = r.below(NR); a[1] = capi(); break;
        case O_GET_TYPE: a[0] = int64_t(list(5)); a[1] = capi() ? r.range(2, 3) : r.below(2); a[2] = r.chance(30); break;
        case O_GC: a[1] = capi(); break;
        case O_NUM: a[0] = r.below(2); a[1] = capi(); break;
        case O_TM_NEW: {
            int s = r.below(NTM);
            for (int i = 0; i < 6; ++i) { s = r.below(NTM); if (fiber && s % p.cfg.nfibers + 1 != fiber) continue; if (!tm[s]) break; }
            a[0] = s;
            a[1] = r.chance(60) ? -1 : live_slot(false);
            a[2] = (capi() ? 1 : 0) | (r.chance(50) ? 2 : 0);
            tm[s] = true;
            break;
        }
        case O_TM_EDIT: case O_TM_GET: case O_TM_DROP: case O_TM_QUERY: {
            int s = r.below(NTM);
            for (int i = 0; i < 8; ++i) { s = r.below(NTM); if (fiber && s % p.cfg.nfibers + 1 != fiber) continue; if (tm[s]) break; }
            a[0] = s;
            if (kind == O_TM_EDIT) {
                static const int whats[] = {0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5};
                a[1] = whats[r.below(11)];
                a[2] = r.chance(80) ? reg_mix() : mix();
                a[3] = capi() ? 3 : r.below(3);
                a[4] = a[1] == 5 ? int64_t(list(5)) : r.below(2);
            }
            else if (kind != O_TM_QUERY) tm[s] = false;
            break;
        }
        case O_OBJ_NEW: {
            int s = free_slot();
            a[0] = s;
            a[1] = r.below(NPOOL_OBJ);
            a[2] = capi() ? r.range(2, 3) : r.below(2);
            if (!(a[2] & 1) && r.chance(60)) a[2] |= 1;
            ML l = list(5);
            a[3] = int64_t(l);
            a[5] = r.chance(!strcmp(pr.id, "C11") ? 25 : 5);
            alive[s] = true;
            otype[s] = a[2] & 1 ? l : 0;
            break;
        }
        case O_OBJ_DEL: { int s = live_slot(); a[0] = s; a[1] = r.chance(15); alive[s] = false; otype[s] = 0; break; }
        case O_OBJ_MUTATE: {
            int s = live_slot();
            a[0] = s;
            a[1] = capi() ? 2 : r.below(2);
            int n = r.chance(8) ? 0 : r.range(1, r.chance(30) ? 5 : 3);
            ML l = otype[s];
            for (int i = 0; i < n; ++i) a[2 + i] = edit_for(l);
            otype[s] = l;
            a[7] = (r.chance(10) ? 1 : 0) | (r.chance(20) ? 2 : 0) | (r.chance(5) ? 4 : 0) | (r.chance(5) ? 8 : 0) | (r.chance(4) ? 16 : 0);
            break;
        }
        case O_OBJ_MUT_TO: {
            int s = live_slot();
            a[0] = s;
            a[1] = capi() ? r.range(4, 5) : r.chance(50) ? r.range(2, 3) : r.below(7);
            ML l = otype[s];
            if (r.chance(45) && ml_n(l) < 6) { // near the present type
                if (ml_n(l) && r.chance(50)) l = ml_erase(l, r.below(ml_n(l)));
                if (r.chance(65)) { int m = reg_mix(); if (!ml_has(l, m)) l = ml_add(l, m); }
                if (ml_n(l) > 1 && r.chance(30)) { int i = r.below(ml_n(l)); int m = ml_at(l, i); l = ml_add(ml_erase(l, i), m); }
                if (ml_n(l) > 5) l = list(5);
            }
            else l = list(5);
            a[2] = int64_t(l);
            int n = r.below(5);
            for (int i = 0; i < n; ++i) {
                int m = ml_n(l) && r.chance(85) ? ml_at(l, r.below(ml_n(l))) : mix();
                a[3 + i] = int64_t(1) << 28 | m | r.below(4) << 4 | r.below(3) << 8 | int64_t(r.below(4096)) << 12;
            }
            a[7] = (r.chance(10) ? 1 : 0) | (r.chance(40) ? 2 : 0) | (r.chance(8) ? 4 : 0) | (r.chance(8) ? 8 : 0);
            a[7] |= (r.chance(15) ? 16 : 0) | (r.chance(30) ? 32 : 0) | (r.chance(5) ? 64 : 0) | (r.chance(20) ? 128 : 0);
            otype[s] = l;
            break;
        }
        case O_OBJ_CLEAR: { int s = live_slot(); a[0] = s; a[1] = capi() ? r.range(2, 3) : r.below(5); otype[s] = 0; break; }
        case O_OBJ_COPY: {
            int s = live_slot(false), d = free_slot();
            a[0] = d; a[1] = s; a[2] = r.below(NPOOL_OBJ); a[3] = capi();
            if (!alive[d]) { alive[d] = true; otype[d] = otype[s]; }
            break;
        }
        case O_OBJ_COPY_FROM: { int s = live_slot(false), d = live_slot(); a[0] = d; a[1] = s; a[2] = capi(); otype[d] = otype[s]; break; }
        case O_OBJ_COPY_MATCH: a[0] = live_slot(); a[1] = live_slot(false); break;
        case O_OBJ_MOVE_NEW: {
            int s = live_slot(), d = free_slot();
            a[0] = d; a[1] = s; a[2] = capi();
            if (!alive[d]) { alive[d] = true; otype[d] = otype[s]; otype[s] = 0; }
            break;
        }
        case O_OBJ_MOVE_ASGN: { int s = live_slot(), d = live_slot(); a[0] = d; a[1] = s; otype[d] = otype[s]; if (s != d) otype[s] = 0; break; }
        case O_OBJ_MOVE_MATCH: a[0] = live_slot(); a[1] = live_slot(); a[2] = r.chance(50); break;
        case O_OBJ_SEAL: a[0] = live_slot(); a[1] = capi(); break;
        case O_OBJ_SETVAL: a[0] = live_slot(); a[1] = r.below(6); a[2] = r.chance(50) ? r.below(4) : r.below(4096); break;
        case O_OBJ_CMP: a[0] = live_slot(false); a[1] = live_slot(false); break;
        case O_OBJ_MSG: a[0] = live_slot(false); a[1] = r.below(4); a[2] = r.below(MSG_NMODES) << 8 | r.below(256); a[3] = r.chance(50) ? r.below(2) : r.below(4); break;
        case O_OBJ_READ: a[0] = live_slot(false); break;
        case O_TYPECHECK: a[0] = live_slot(false); a[1] = live_slot(false); a[2] = r.below(NTC); break;
        case O_MD_BUILD: {
            a[0] = r.below(NMD);
            static const int steps[] = {1, 2, 3, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 10, 11};
            a[1] = steps[r.below(18)];
            a[2] = r.below(12); a[3] = r.below(12); a[4] = r.chance(60) ? 0 : r.range(-1, 2); a[5] = r.chance(60) ? 0 : r.range(-3, 3); a[6] = r.below(RK_N);
            break;
        }
        case O_MD_REG: a[0] = r.below(NMD); reg[MD0 + a[0]] = true; break;
        case O_MD_UNREG: a[0] = r.below(NMD); reg[MD0 + a[0]] = false; break;
        case O_DUMP: a[0] = (r.chance(85) ? 0x3f : r.below(256)) | (r.chance(40) ? r.below(0x20000) & 0x1f300 : r.chance(30) ? 0xffffff00 : 0); a[1] = r.below(10); a[2] = r.below(64); break;
        case O_DOM_MISC: a[0] = r.below(6); a[1] = (r.chance(50) ? 1 : 0) | (capi() ? 2 : 0) | r.below(64) << 2; a[2] = r.below(1000); break;
        default:;
        }
        return o;
    }
    int pick(const int* wt) {
        int sum = 0;
        for (int i = 0; i < O_COUNT; ++i) sum += wt[i];
        int x = r.below(sum);
        for (int i = 0; i < O_COUNT; ++i) { if (x < wt[i]) return i; x -= wt[i]; }
        return O_GET_TYPE;
    }

    // an operation, and maybe a lookup of what it changed
    void add(std::vector<Op>& ops, const Op& o) {
        ops.push_back(o);
        int kind = o.kind == O_REG_MIXIN || o.kind == O_UNREG_MIXIN ? 1 : o.kind == O_REG_FEAT || o.kind == O_UNREG_FEAT ? 3 : o.kind == O_REG_TC || o.kind == O_UNREG_TC ? 4 : 0;
        if (!kind || (fiber && ops.size() >= 22) || !r.chance(pr.w[O_LOOKUP] > 4 ? 50 : 10)) return;
        Op l;
        l.kind = O_LOOKUP;
        l.fiber = o.fiber;
        l.a[0] = kind; l.a[1] = o.a[0]; l.a[2] = capi();
        ops.push_back(l);
    }
    // objects of types which come and go, looked at in the same way: nothing may be remembered of a type which is gone
    void churn(std::vector<Op>& ops) {
        int s = free_slot(), rounds = r.range(2, 4), n = r.range(1, 3);
        if (alive[s]) return;
        bool al[NOBJ]; ML ot[NOBJ]; // the guess of the state does not change
        std::copy(alive, alive + NOBJ, al);
        std::copy(otype, otype + NOBJ, ot);
        Op look = op(O_OBJ_MSG), check = op(O_TYPECHECK), read = op(O_OBJ_READ);
        look.a[0] = check.a[0] = read.a[0] = s;
        int which = r.below(8) | (r.chance(50) ? 1 : 0);
        for (int i = 0; i < rounds; ++i) {
            ML l = 0;
            for (int k = 0; k < 12 && ml_n(l) < n; ++k) { int m = reg_mix(); if (!ml_has(l, m)) l = ml_add(l, m); }
            Op mk = op(O_OBJ_NEW);
            mk.a[0] = s; mk.a[2] = (mk.a[2] & 2) | 1; mk.a[3] = int64_t(l); mk.a[5] = 0;
            ops.push_back(mk);
            if (which & 1) ops.push_back(look);
            if (which & 2) ops.push_back(check);
            if (which & 4) ops.push_back(read);
            Op del = op(O_OBJ_DEL);
            del.a[0] = s; del.a[1] = 0;
            ops.push_back(del);
            std::copy(al, al + NOBJ, alive);
            std::copy(ot, ot + NOBJ, otype);
            if (r.chance(25)) ops.push_back(op(O_UNREG_MIXIN));
            ops.push_back(op(O_GC));
        }
    }

    Plan run(uint64_t seed) {
        capi_pct = pr.capi;
        long_lists = r.chance(50);
        config();
        // swarm: each run leaves out some kinds of operations and prefers others
        int wt[O_COUNT], wk[O_COUNT];
        int focus = r.below(4);
        for (int i = 0; i < O_COUNT; ++i) {
            wt[i] = pr.w[i] * 4; wk[i] = pr.wc[i] * 4;
            if (r.chance(12)) wt[i] /= 4;
            if (r.chance(focus == 0 ? 45 : 15)) wk[i] = 0;
            else if (r.chance(15)) wk[i] *= 3;
        }
        int sum = 0;
        for (int i = 0; i < O_COUNT; ++i) sum += wk[i];
        if (!sum) for (int i = 0; i < O_COUNT; ++i) wk[i] = pr.wc[i];
        sum = 0;
        for (int i = 0; i < O_COUNT; ++i) sum += wt[i];
        if (!sum) for (int i = 0; i < O_COUNT; ++i) wt[i] = pr.w[i];
        // something to start with
        int nreg = r.range(1, 6);
        bool regs = pr.w[O_REG_MIXIN] > 0;
        if (regs) for (int i = 0; i < nreg; ++i) {
            Op o; o.kind = O_REG_MIXIN;
            int m = favourite[size_t(r.below(int(favourite.size())))];
            if (m >= MD0) {
                int nb = r.below(3);
                for (int k = 0; k < nb; ++k) { Op b = op(O_MD_BUILD); b.a[0] = m - MD0; p.setup.push_back(b); }
                o.kind = O_MD_REG; o.a[0] = m - MD0; reg[m] = true;
            }
            else { o.a[0] = m; o.a[1] = capi(); reg[m] = true; }
            p.setup.push_back(o);
        }
        int ns = r.range(pr.nsetup / 2, pr.nsetup * 3 / 2);
        if (p.cfg.nfibers && pr.conc < 50) ns /= 2;
        int churns = p.cfg.reuse && r.chance(60) ? r.range(1, 2) : 0;
        for (int i = 0; i < ns; ++i) {
            if (churns && r.below(ns - i) < churns) { churn(p.setup); --churns; }
            add(p.setup, op(pick(wt)));
        }
        if (p.cfg.nfibers) {
            // objects which are shared
            int nsh = r.below(4);
            if (!strcmp(pr.id, "C13") || p.cfg.gc_conc) nsh = r.range(1, 3);
            for (int i = 0; i < nsh; ++i) {
                Op o; o.kind = O_OBJ_NEW; o.a[0] = 7 + i; o.a[1] = r.below(3); o.a[2] = 1;
                ML l = 0;
                for (int k = 0; k < 8 && ml_n(l) < r.range(1, 4); ++k) { int m = reg_mix(); if (!ml_has(l, m) && p.cfg.mix[m].owner < 0) l = ml_add(l, m); }
                o.a[3] = int64_t(l);
                reqs.push_back(l);
                alive[7 + i] = true;
                otype[7 + i] = l;
                p.setup.push_back(o);
            }
            // objects which are given up while others collect
            std::vector<int> give[rt::MAXF];
            if (p.cfg.gc_conc) for (int f = 1; f <= p.cfg.nfibers; ++f) {
                int n = r.below(3);
                for (int i = 0; i < n; ++i) {
                    int s = f - 1 + r.below((7 - f) / p.cfg.nfibers + 1) * p.cfg.nfibers;
                    if (s >= 7) continue;
                    if (!alive[s]) {
                        Op o; o.kind = O_OBJ_NEW; o.a[0] = s; o.a[1] = r.below(3); o.a[2] = 1;
                        ML l = 0;
                        for (int k = 0; k < 8 && ml_n(l) < r.range(1, 3); ++k) { int m = reg_mix(); if (!ml_has(l, m) && (p.cfg.mix[m].owner < 0 || p.cfg.mix[m].owner == f)) l = ml_add(l, m); }
                        o.a[3] = int64_t(l);
                        alive[s] = true; otype[s] = l;
                        p.setup.push_back(o);
                    }
                    give[f].push_back(s);
                }
            }
            int nw = r.range(2, pr.nwork * 2 - 2);
            bool same = r.chance(25); // every fiber does the same kind of thing
            std::vector<int> kinds;
            bool al[NOBJ];
            for (int i = 0; i < NOBJ; ++i) al[i] = alive[i];
            for (int f = 1; f <= p.cfg.nfibers; ++f) {
                fiber = f;
                int n = std::max(1, nw + r.range(-2, 2));
                if (n > 22) n = 22;
                for (int i = 0; i < n; ++i) {
                    int k;
                    if (same && f > 1 && i < int(kinds.size())) k = kinds[size_t(i)];
                    else { k = pick(wk); if (f == 1) kinds.push_back(k); }
                    if (p.work[f].size() < 22) add(p.work[f], op(k));
                    if (!give[f].empty() && r.chance(50)) {
                        static const int kinds[] = {O_OBJ_DEL, O_OBJ_DEL, O_OBJ_CLEAR, O_OBJ_CLEAR, O_OBJ_MUTATE, O_OBJ_MUT_TO, O_OBJ_COPY_FROM, O_OBJ_MOVE_ASGN};
                        Op o = op(kinds[r.below(8)]);
                        o.a[0] = give[f].back();
                        give[f].pop_back();
                        if (o.kind == O_OBJ_DEL) { alive[o.a[0]] = false; otype[o.a[0]] = 0; }
                        add(p.work[f], o);
                    }
                    else if (p.cfg.gc_conc && r.chance(15)) add(p.work[f], op(O_GC));
                }
            }
            fiber = 0;
        }
        int nt = pr.ntail ? r.below(pr.ntail * 2) : 0;
        if (!p.cfg.nfibers) nt = 0;
        for (int i = 0; i < nt; ++i) add(p.tail, op(pick(wt)));
        if (r.chance(10)) { // a domain of many mixins
            Op o;
            o.kind = O_DOM_MISC;
            o.a[0] = 6; o.a[2] = int64_t(r.below(1 << 30));
            auto& l = p.tail.empty() || r.chance(60) ? p.setup : p.tail;
            l.insert(l.begin() + r.below(int(l.size()) + 1), o);
        }
        p.sched.seed = r.next();
        p.sched.mode = rt::Sched::random;
        p.sched.sync_percent = 50;
        p.sched.acc_period = 0;
        p.sched.writer_pref = r.chance(50);
        (void)seed;
        return p;
    }
};
// the static world
struct GenV {
    static constexpr int NVO = 8, NVMIX = 14, NRU = 6;
    const Profile& pr;
    Rng r;
    Plan p;
    bool alive[NVO] = {}, loaded = false, held[NRU] = {}, added[NRU] = {};
    int dom[NVO] = {}, ids = 0, fiber = 0, plug = 1;
    ML type[NVO] = {};
    bool modules; // about modules more than about rules
    std::vector<ML> reqs;
    GenV(const Profile& pr_, uint64_t seed) : pr(pr_), r(seed) {}

    bool owns(int s) { return !fiber || (s < NVO - 2 && s % p.cfg.nfibers + 1 == fiber); }
    bool plug_ok() { return loaded && (!fiber || fiber == plug); }
    int mix(int d) {
        for (;;) {
            int m = r.below(NVMIX);
            int md = m < 10 ? 0 : 1;
            bool pl = m == 8 || m == 9 || m >= 12;
            if (md != d && !r.chance(2)) continue;
            if (pl && !plug_ok()) continue;
            if (pl && modules && r.chance(60)) return m;
            return m;
        }
    }
    int slot(bool live, bool write) {
        int best = -1;
        for (int i = 0; i < 20; ++i) {
            int s = r.below(NVO);
            if (!owns(s) && (write || s < NVO - 2)) continue;
            best = s;
            if (alive[s] == live) return s;
        }
        return best < 0 ? 0 : best;
    }
    ML list(int d) {
        if (!reqs.empty() && r.chance(30)) return reqs[size_t(r.below(int(reqs.size())))];
        ML l = 0;
        int n = r.range(0, 4);
        for (int i = 0; i < n; ++i) { int m = mix(d); if (!ml_has(l, m) || r.chance(5)) l = ml_add(l, m); }
        if (reqs.size() < 16) reqs.push_back(l); else reqs[size_t(r.below(16))] = l;
        return l;
    }
    bool is_plug(ML l) { return ml_has(l, 8) || ml_has(l, 9) || ml_has(l, 12) || ml_has(l, 13); }
    void op(int kind, std::vector<Op>& out) {
        Op o;
        o.kind = kind; o.fiber = fiber;
        auto& a = o.a;
        switch (kind) {
        case V_PLUG:
            if (fiber && fiber != plug) { o.kind = V_LOOKUP; a[0] = r.below(NVMIX); a[1] = r.below(11); break; }
            if (!loaded) { loaded = true; a[0] = 0; break; }
            for (int s = 0; s < NVO; ++s) if (alive[s] && is_plug(type[s])) {
                Op d; d.fiber = fiber; d.a[0] = s;
                if (r.chance(60)) { d.kind = V_DEL; alive[s] = false; }
                else {
                    d.kind = V_MUTATE;
                    d.a[1] = r.below(3);
                    int k = 2;
                    ML l = type[s];
                    for (int i = 0; i < ml_n(l) && k < 7; ++i) if (is_plug(ml_add(0, ml_at(l, i)))) { d.a[k++] = int64_t(1) << 28 | 2 | ml_at(l, i) << 4 | r.range(1, 2) << 8; }
                    for (int i = ml_n(l); i--;) if (is_plug(ml_add(0, ml_at(l, i)))) type[s] = ml_erase(type[s], i);
                }
                if (r.chance(95)) out.push_back(d);
            }
            a[0] = 1;
            loaded = false;
            for (size_t i = reqs.size(); i--;) if (is_plug(reqs[i])) reqs.erase(reqs.begin() + long(i));
            break;
        case V_NEW: { int s = slot(false, true); a[0] = s; a[1] = r.chance(modules ? 45 : 20); if (!alive[s]) { alive[s] = true; dom[s] = int(a[1]); type[s] = 0; } break; }
        case V_DEL: { int s = slot(true, true); a[0] = s; alive[s] = false; break; }
        case V_MUTATE: {
            int s = slot(true, true);
            a[0] = s; a[1] = r.chance(80) ? r.below(3) : r.range(3, 4);
            bool variadic = a[1] == 2;
            ML l = type[s];
            int n = r.range(1, 4);
            for (int i = 0; i < n; ++i) {
                int what = r.below(100), m;
                what = what < 50 ? 0 : what < 65 ? 1 : what < 85 ? 2 : 3;
                if (what >= 2 && ml_n(l) && r.chance(90)) m = ml_at(l, r.below(ml_n(l)));
                else { if (what >= 2 && r.chance(80)) what = 0; m = mix(dom[s]); }
                if (what == 0 && ml_has(l, m) && r.chance(90)) what = variadic ? 3 : 1;
                a[2 + i] = int64_t(1) << 28 | what | m << 4 | r.below(3) << 8 | (variadic && r.chance(50) ? r.range(1, 3) : 0) << 12 | r.below(4096) << 16;
                if (what <= 1 && !ml_has(l, m) && ml_n(l) < 12) l = ml_add(l, m);
                else if (what == 2 && ml_has(l, m)) l = ml_erase(l, ml_find(l, m));
            }
            if (a[1] < 3) type[s] = l;
            if (r.chance(12)) a[1] |= 8;
            break;
        }
        case V_COPY: {
            int s = slot(true, false), how = r.below(3);
            int d = slot(how == 2, true);
            a[0] = d; a[1] = s; a[2] = how;
            if (alive[s] && !ml_has(type[s], 5) && (how == 2 || !alive[d])) { alive[d] = true; dom[d] = dom[s]; type[d] = type[s]; }
            break;
        }
        case V_MOVE: {
            int s = slot(true, true), d = slot(r.chance(50), true);
            a[0] = d; a[1] = s;
            if (alive[s] && s != d && (!alive[d] || dom[d] == dom[s])) { alive[d] = true; dom[d] = dom[s]; type[d] = type[s]; type[s] = 0; }
            break;
        }
        case V_READ: a[0] = slot(true, false); break;
        case V_MSG: {
            int s = slot(true, false);
            a[0] = s;
            a[1] = dom[s] ? loaded && (!fiber || fiber == plug) && r.chance(45) ? 10 : r.range(8, 9) : r.below(8);
            if (!dom[s] && ml_n(type[s]) && r.chance(40)) { static const int some[] = {0, 1, 4, 5, 7}; a[1] = some[r.below(5)]; }
            a[2] = (r.chance(50) ? 0 : r.chance(85) ? 1 : 2) << 8 | r.below(256);
            a[3] = r.below(6); a[4] = r.below(4);
            break;
        }
        case V_SETVAL: a[0] = slot(true, true); a[1] = r.below(6); a[2] = r.below(4096); break;
        case V_RULE_ADD: {
            int x = r.below(NRU);
            for (int i = 0; i < 8; ++i) { x = r.below(NRU); if (fiber && x % p.cfg.nfibers + 1 != fiber) continue; if (!added[x] || held[x]) break; }
            a[0] = x; a[1] = held[x] ? (r.chance(50) ? 4 : 0) : r.below(3);
            if (a[1] & 4) held[x] = false;
            if (a[1] == 2) held[x] = true;
            added[x] = true;
            if (ids < 8) ++ids;
            break;
        }
        case V_RULE_REM: a[0] = ids && r.chance(90) ? r.below(ids) : r.below(8); a[1] = r.chance(35); break;
        case V_RULE_DROP: {
            int x = r.below(NRU);
            for (int i = 0; i < 10; ++i) { x = r.below(NRU); if (fiber && x % p.cfg.nfibers + 1 != fiber) continue; if (held[x]) break; }
            a[0] = x; held[x] = false;
            break;
        }
        case V_GET_TYPE: a[0] = r.chance(modules ? 40 : 15); a[1] = int64_t(list(int(a[0]))); a[2] = r.below(2); break;
        case V_LOOKUP: a[0] = r.below(NVMIX); a[1] = r.below(11); break;
        case V_GC: a[0] = r.below(2); break;
        default:;
        }
        out.push_back(o);
    }
    int pick(const int* w) {
        int sum = 0;
        for (int i = 0; i < O_COUNT; ++i) sum += w[i];
        int x = r.below(sum);
        for (int i = 0; i < O_COUNT; ++i) { if (x < w[i]) return i; x -= w[i]; }
        return V_READ;
    }
    // objects whose types come and go, each looked at in the same way
    void churn(std::vector<Op>& out) {
        int rounds = r.range(2, 4), d = r.chance(modules ? 45 : 20);
        int s = slot(false, true);
        if (alive[s]) return;
        Op look;
        for (int i = 0; i < rounds; ++i) {
            Op o;
            o.kind = V_NEW; o.a[0] = s; o.a[1] = d;
            out.push_back(o);
            alive[s] = true; dom[s] = d; type[s] = 0;
            o = Op(); o.kind = V_MUTATE; o.a[0] = s; o.a[1] = r.below(3);
            int n = r.range(1, 3);
            for (int k = 0; k < n; ++k) {
                int m = mix(d);
                if (ml_has(type[s], m)) continue;
                type[s] = ml_add(type[s], m);
                o.a[2 + k] = int64_t(1) << 28 | 1 | m << 4 | r.below(3) << 8 | int64_t(r.below(4096)) << 16;
            }
            out.push_back(o);
            if (!i) {
                look.kind = V_MSG; look.a[0] = s;
                look.a[1] = d ? r.range(8, 9) : r.below(8);
                look.a[2] = (r.chance(50) ? 0 : 1) << 8 | r.below(256);
                look.a[3] = r.below(6); look.a[4] = r.below(4);
            }
            out.push_back(look);
            if (r.chance(30)) { o = Op(); o.kind = V_READ; o.a[0] = s; out.push_back(o); }
            o = Op(); o.kind = V_DEL; o.a[0] = s;
            out.push_back(o);
            alive[s] = false;
            if (r.chance(25)) op(V_PLUG, out);
            if (r.chance(30)) op(r.chance(50) ? V_RULE_ADD : V_RULE_REM, out);
            o = Op(); o.kind = V_GC; o.a[0] = d;
            out.push_back(o);
        }
    }
    Plan run() {
        modules = pr.id == std::string("C18");
        auto& c = p.cfg;
        static const int fills[] = {0xcb, 0x00, 0xff, 0x5a};
        c.fill = fills[r.below(4)];
        c.reuse = r.chance(25);
        c.nfibers = r.chance(pr.conc) ? r.range(2, 4) : 0;
        c.v1.on = 1;
        c.v1.order = r.below(6) | (r.chance(50) ? 8 : 0);
        c.v1.plug_fiber = r.below(4);
        if (c.nfibers) plug = c.v1.plug_fiber % c.nfibers + 1;
        int focus[3] = {r.below(8), r.below(8), r.below(8)};
        auto fm = [&] { return r.chance(60) ? focus[r.below(3)] : r.below(8); };
        for (auto& x : c.v1.rule) {
            x.kind = r.below(7);
            x.a = fm(); x.b = fm(); x.c = fm();
            if (x.kind == 6) { for (int i = 0; i < 5 && x.b == x.a; ++i) x.b = r.below(8); } // substitute by another
            if (x.kind == 2) x.b = r.chance(85) ? 3 : x.b; // only dependencies can be added as such
            x.byname = r.below(3);
        }
        int w[O_COUNT], wc[O_COUNT];
        for (int i = 0; i < O_COUNT; ++i) {
            w[i] = pr.w[i] * 4; wc[i] = pr.wc[i] * 4;
            if (r.chance(12)) w[i] /= 4;
            if (r.chance(15)) wc[i] = 0; else if (r.chance(15)) wc[i] *= 3;
        }
        int sum = 0;
        for (int x : wc) sum += x;
        if (!sum) for (int i = 0; i < O_COUNT; ++i) wc[i] = pr.wc[i];
        if (r.chance(modules ? 40 : 25)) op(V_PLUG, p.setup);
        int n = r.range(1, 4);
        for (int i = 0; i < n; ++i) { op(V_NEW, p.setup); op(V_MUTATE, p.setup); }
        n = r.range(pr.nsetup / 2, pr.nsetup * 3 / 2);
        if (c.nfibers) n /= 2;
        int churns = c.reuse && r.chance(60);
        for (int i = 0; i < n; ++i) {
            if (churns && r.below(n - i) < churns) { churn(p.setup); --churns; }
            op(pick(w), p.setup);
        }
        if (c.nfibers) {
            for (int s = NVO - 2; s < NVO; ++s) if (r.chance(60) && !alive[s]) {
                Op o; o.kind = V_NEW; o.a[0] = s; o.a[1] = r.chance(25); p.setup.push_back(o);
                alive[s] = true; dom[s] = int(o.a[1]); type[s] = 0;
                Op m; m.kind = V_MUTATE; m.a[0] = s;
                for (int i = 0; i < 3; ++i) m.a[2 + i] = int64_t(1) << 28 | 1 | (dom[s] ? r.range(10, 11) : r.below(8)) << 4 | 1 << 8;
                p.setup.push_back(m);
            }
            int nw = r.range(2, pr.nwork * 2 - 2);
            bool same = r.chance(25);
            std::vector<int> kinds;
            for (int f = 1; f <= c.nfibers; ++f) {
                fiber = f;
                int k = std::max(1, nw + r.range(-2, 2));
                for (int i = 0; i < k && p.work[f].size() < 22; ++i) {
                    int kind = same && f > 1 && i < int(kinds.size()) ? kinds[size_t(i)] : pick(wc);
                    if (f == 1) kinds.push_back(kind);
                    if (f == plug && modules && r.chance(15)) kind = V_PLUG;
                    op(kind, p.work[f]);
                }
            }
            fiber = 0;
        }
        n = r.below(pr.ntail * 2);
        for (int i = 0; i < n; ++i) op(pick(w), p.tail);
        p.sched.seed = r.next();
        p.sched.mode = rt::Sched::random;
        p.sched.sync_percent = 50;
        return p;
    }
};
}

Plan generate(const Profile& pr, uint64_t seed) {
    if (pr.w[V_NEW]) return GenV(pr, seed).run();
    Gen g(pr, seed);
    return g.run(seed);
}
