// The model of a domain, and the check of histories against it.
#include "world.h"
#include <algorithm>
#include <string.h>
#include <unordered_set>

using rt::fail;

std::vector<TypeRow> ttab;
DStates DS;

static const char* const rec_names[] = {"register-mixin", "unregister-mixin", "register-feature", "unregister-feature", "register-type-class", "unregister-type-class",
    "lookup-mixin-id", "lookup-mixin-name", "lookup-feature-id", "lookup-feature-name", "lookup-type-class",
    "add-rule", "remove-rule", "get-type", "collect", "num-types", "num-rules", "traverse", "register-described", "unregister-described", "add-by-name"};

std::string ml_str(ML l) {
    std::string s = "[";
    for (int i = 0; i < ml_n(l); ++i) { if (i) s += ' '; s += std::to_string(ml_at(l, i)); }
    return s + "]";
}

DState::DState() {
    memset(mix, -1, sizeof mix);
    memset(feat, -1, sizeof feat);
    tc = 0;
    memset(rules, 0, sizeof rules);
}
std::string DState::key() const {
    std::string s((const char*)mix, sizeof mix);
    s.append((const char*)feat, sizeof feat);
    s += char(tc);
    s.append((const char*)rules, sizeof rules);
    for (auto& t : types) { s.append((const char*)&t.first, 8); s.append((const char*)&t.second, 4); }
    return s;
}
std::string DState::str() const {
    std::string s = "mixins by id";
    for (int i = 0; i < 16; ++i) if (mix[i] >= 0) s += " " + std::to_string(i) + ":" + std::to_string(mix[i]);
    s += ", features";
    for (int i = 0; i < 8; ++i) if (feat[i] >= 0) s += " " + std::to_string(i) + ":" + std::to_string(feat[i]);
    s += ", rules";
    for (int i = 0; i < NRALL; ++i) if (rules[i]) s += " " + std::to_string(i) + "x" + std::to_string(rules[i]);
    s += ", types";
    for (auto& t : types) s += " " + ml_str(t.first);
    return s;
}

std::string Rec::str() const {
    std::string s = "f" + std::to_string(fiber) + "/" + std::to_string(op) + " " + rec_names[kind] + " " + std::to_string(a) + " " + std::to_string(b);
    if (!name.empty()) s += " '" + name + "'";
    if (kind == RC_GET_TYPE) s += " " + ml_str(req) + "->" + ml_str(list) + "#" + std::to_string(type);
    s += ok ? " ok" : " failed";
    if (fault) s += " (fault)";
    s += " @" + std::to_string(inv) + "-" + std::to_string(res);
    if (snap && !snap->counts_only) {
        s += " {m";
        for (auto& x : snap->mix) s += " " + std::to_string(x.first) + ":" + std::to_string(x.second);
        s += " r";
        for (auto& x : snap->rules) s += " " + std::to_string(x.first) + "x" + std::to_string(x.second);
        s += " t";
        for (auto& x : snap->types) s += " " + ml_str(x.first) + "#" + std::to_string(x.second);
        s += "}";
    }
    return s;
}

int find_row(const dx::type* t) {
    uint64_t serial = rt::serial_of(t); // a type can be where a dead one was
    for (size_t i = ttab.size(); i-- > 0;) if (ttab[i].ptr == t && ttab[i].serial == serial) return int(i);
    return -1;
}
int type_row(const dx::type* t, ML list) {
    if (int i = find_row(t); i >= 0) {
        if (ttab[size_t(i)].list != list) fail("type-changed", "a type which had the mixins %s is now seen with %s", ml_str(ttab[size_t(i)].list).c_str(), ml_str(list).c_str());
        return i;
    }
    ttab.push_back({t, list, rt::serial_of(t)});
    return int(ttab.size()) - 1;
}

// ---- rules ----
static int by_name(const DState& s, const std::string& n) {
    for (int i = 0; i < 16; ++i) if (s.mix[i] >= 0 && W.mname[s.mix[i]] == n) return s.mix[i];
    return -1;
}
static int apply_rule(const DState& s, const RuleCfg& r, ML& l) {
    auto has = [&] {
        if (!r.byname) return ml_find(l, r.a);
        for (int i = 0; i < ml_n(l); ++i) if (W.mname[ml_at(l, i)] == W.mname[r.a]) return i;
        return -1;
    };
    auto add = [&](int m) -> int {
        if (r.byname) {
            for (int i = 0; i < ml_n(l); ++i) if (W.mname[ml_at(l, i)] == W.mname[m]) return 0;
            int f = by_name(s, W.mname[m]);
            if (f < 0) return r.byname == 2;
            l = ml_add(l, f);
            return 0;
        }
        if (!ml_has(l, m)) l = ml_add(l, m);
        return 0;
    };
    int i;
    switch (r.kind) {
    case RK_ATTACH: return has() >= 0 ? add(r.b) : 0;
    case RK_REMOVE: if ((i = has()) >= 0) l = ml_erase(l, i); return 0;
    case RK_BACK: if ((i = has()) >= 0) { int m = ml_at(l, i); l = ml_add(ml_erase(l, i), m); } return 0;
    case RK_REPLACE: if ((i = has()) >= 0) { l = ml_erase(l, i); return add(r.b); } return 0;
    case RK_FAIL: case RK_THROW: return ml_has(l, r.a);
    case RK_TOGGLE: if ((i = has()) >= 0) { l = ml_erase(l, i); return 0; } return add(r.a);
    case RK_DEDUP: {
        ML o = 0;
        for (int k = 0; k < ml_n(l); ++k) {
            bool later = false;
            for (int j = k + 1; j < ml_n(l); ++j) if (ml_at(l, j) == ml_at(l, k)) later = true;
            if (!later) o = ml_add(o, ml_at(l, k));
        }
        l = o;
        return 0;
    }
    case RK_ADD: return add(r.a);
    default: return 0;
    }
}
bool canon_less(const DState& s, int a, int b) {
    if (a == b) return false;
    int pa = mcfg(a).prio, pb = mcfg(b).prio;
    if (pa != pb) return pa < pb;
    if (W.mname[a] != W.mname[b]) return W.mname[a] < W.mname[b];
    int ia = a == M_FOREIGN ? 0 : s.mix_id(a), ib = b == M_FOREIGN ? 0 : s.mix_id(b);
    if (ia != ib) return unsigned(ia) < unsigned(ib);
    return W.mix[a] < W.mix[b];
}

int eval_rules(const DState& s, ML req, ML& out) {
    int ord[NRALL], n = 0;
    for (int i = 0; i < NRALL; ++i) if (s.rules[i]) ord[n++] = i;
    std::sort(ord, ord + n, [](int a, int b) {
        if (W.rules[a].cfg.prio != W.rules[b].cfg.prio) return W.rules[a].cfg.prio < W.rules[b].cfg.prio;
        return W.rules[a].name < W.rules[b].name;
    });
    int count = n + (W.cfg.canon ? 1 : 0);
    ML last = req, cur = 0;
    for (int i = 0; i < ml_n(req); ++i) if (!mcfg(ml_at(req, i)).dep) cur = ml_add(cur, ml_at(req, i));
    for (int i = 0;; ++i) {
        for (int k = 0; k < n; ++k) if (apply_rule(s, W.rules[ord[k]].cfg, cur)) return 1;
        if (W.cfg.canon) {
            int v[16], c = ml_n(cur);
            for (int k = 0; k < c; ++k) v[k] = ml_at(cur, k);
            std::sort(v, v + c, [&](int a, int b) { return canon_less(s, a, b); });
            ML x = 0;
            for (int k = 0; k < c; ++k) x = ml_add(x, v[k]);
            cur = x;
        }
        if (last == cur) { out = cur; return 0; }
        if (i == 5 || (i > 0 && i >= count)) return 2;
        last = cur;
    }
}

static bool allows_clashes(int f) { return f != 2 && f != 4; }

int eval_valid(const DState& s, ML l) {
    for (int i = 0; i < ml_n(l); ++i) {
        int m = ml_at(l, i);
        if (!s.mix_reg(m)) return 1;
        for (int j = i + 1; j < ml_n(l); ++j) if (ml_at(l, j) == m) return 2;
    }
    struct P { int f, bid, prio; } p[64];
    int n = 0;
    for (int i = 0; i < ml_n(l); ++i) {
        auto c = mcfg(ml_at(l, i));
        for (int k = 0; k < c.nfeat; ++k) {
            if (allows_clashes(c.feat[k].f)) continue;
            for (int j = 0; j < n; ++j) if (p[j].f == c.feat[k].f && p[j].bid == c.feat[k].bid && p[j].prio == c.feat[k].prio) return 3;
            p[n++] = {c.feat[k].f, c.feat[k].bid, c.feat[k].prio};
        }
    }
    return 0;
}

// ---- steps ----
namespace {
constexpr unsigned DONE = ~0u;
struct Next { DState s; unsigned phase; ML scratch; };
typedef std::vector<Next> Nexts;

void add_type(DState& s, ML l, int idx) {
    s.types.push_back({l, idx});
    std::sort(s.types.begin(), s.types.end());
}

// registers a feature; 0: ok
int reg_feature(DState& s, int f) {
    if (s.feat_id(f) >= 0) return 1;
    if (!W.cfg.dup_features) {
        if (W.fname[f].empty()) return 2;
        for (int i = 0; i < 8; ++i) if (s.feat[i] >= 0 && W.fname[s.feat[i]] == W.fname[f]) return 3;
    }
    for (int i = 0; i < 8; ++i) if (s.feat[i] < 0) { s.feat[i] = int8_t(f); return 0; }
    return 4;
}
int reg_mixin(DState& s, int m) { // with features, which stay registered
    if (m == M_FOREIGN) return 1;
    auto c = mcfg(m);
    for (int i = 0; i < c.nfeat; ++i) {
        if (s.feat_id(c.feat[i].f) >= 0) continue;
        if (reg_feature(s, c.feat[i].f)) return 2;
    }
    if (s.mix_reg(m)) return 3;
    if (!W.cfg.dup_mixins) {
        if (W.mname[m].empty()) return 4;
        for (int i = 0; i < 16; ++i) if (s.mix[i] >= 0 && W.mname[s.mix[i]] == W.mname[m]) return 5;
    }
    for (int i = 0; i < 16; ++i) if (s.mix[i] < 0) { s.mix[i] = int8_t(m); return 0; }
    return 6;
}
// all results of a registration which failed with a fault
void reg_mixin_faulty(const DState& in, int m, std::vector<DState>& out) {
    DState s = in;
    out.push_back(s);
    if (m == M_FOREIGN) return;
    auto c = mcfg(m);
    for (int i = 0; i < c.nfeat; ++i) {
        if (s.feat_id(c.feat[i].f) >= 0) continue;
        if (reg_feature(s, c.feat[i].f)) return;
        out.push_back(s);
    }
}
void remove_types_of(DState& s, int m) {
    s.types.erase(std::remove_if(s.types.begin(), s.types.end(), [&](auto& t) { return ml_has(t.first, m); }), s.types.end());
}
void unreg_slot(DState& s, int m) { int i = s.mix_id(m); if (i >= 0) s.mix[i] = -1; }

bool local_fails(const Rec& r, ML target, int type) {
    if (r.local_must_fail) return !(r.same_ok && type >= 0 && ttab[size_t(type)].list == r.old_list) && !(r.same_ok && target == r.old_list);
    for (int i = 0; i < ml_n(target); ++i) {
        int m = ml_at(target, i);
        if (r.old_mask >> m & 1) continue;
        if (r.over_mask >> m & 1) continue;
        if (!(mcfg(m).fn & FN_INIT) || (r.noinit_mask >> m & 1)) return true;
    }
    return false;
}

bool snapshot_matches(const Rec& r, DState& s) {
    auto& p = *r.snap;
    auto count = [](const int8_t* a, int n) { int c = 0; for (int i = 0; i < n; ++i) c += a[i] >= 0; return c; };
    int nm = count(s.mix, 16), nfe = count(s.feat, 8), nr = W.cfg.canon ? 1 : 0;
    for (auto x : s.rules) nr += x > 0;
    if (p.counts_only) {
        int e[5] = {nfe, nm, nr, int(s.types.size()), __builtin_popcount(s.tc)};
        for (int i = 0; i < 5; ++i) if (p.n[i] >= 0 && p.n[i] != e[i]) return false;
        return true;
    }
    if (int(p.mix.size()) != nm || int(p.feat.size()) != nfe || int(p.rules.size()) != nr || p.types.size() != s.types.size() || int(p.tcs.size()) != __builtin_popcount(s.tc)) return false;
    for (auto& x : p.mix) if (x.first < 0 || x.first >= 16 || s.mix[x.first] != x.second) return false;
    for (auto& x : p.feat) if (x.first < 0 || x.first >= 8 || s.feat[x.first] != x.second) return false;
    for (auto x : p.tcs) if (!(s.tc >> x & 1)) return false;
    for (auto& x : p.rules) if (x.first != -2 && s.rules[x.first] != x.second) return false;
    for (auto& x : p.types) {
        bool f = false;
        for (auto& t : s.types) {
            if (t.first != x.first) continue;
            if (t.second == -1) t.second = x.second; // now it is known
            else if (t.second != x.second) return false;
            f = true;
        }
        if (!f) return false;
    }
    for (auto& q : p.queries) {
        ML l = 0;
        if (eval_rules(s, q.first, l)) return false;
        if (q.second == -2) { if (ml_n(l)) return false; continue; }
        if (ttab[size_t(q.second)].list != l) return false;
        int i = s.find_type(l);
        if (i < 0 || (s.types[size_t(i)].second != q.second && s.types[size_t(i)].second != -1)) return false;
    }
    std::sort(s.types.begin(), s.types.end());
    return true;
}

// all ways to do the next step of a recorded call
void steps(const Rec& r, unsigned ph, ML sc, const DState& in, Nexts& out) {
    auto fin = [&](const DState& s) { out.push_back({s, DONE, 0}); };
    DState s = in;
    switch (r.kind) {
    case RC_REG_MIXIN: {
        int e = reg_mixin(s, r.a);
        if (r.ok) { if (!e && s.mix_id(r.a) == r.b) fin(s); }
        else {
            if (e) fin(s);
            if (r.fault) { std::vector<DState> v; reg_mixin_faulty(in, r.a, v); for (auto& x : v) fin(x); }
        }
        break;
    }
    case RC_UNREG_MIXIN:
        if (ph == 0) {
            if (!r.ok) { if (!s.mix_reg(r.a)) fin(s); break; }
            if (!s.mix_reg(r.a)) break;
        }
        for (unsigned k = 1; k <= 2; k <<= 1) {
            if (ph & k) continue;
            s = in;
            if (k == 1) remove_types_of(s, r.a); else unreg_slot(s, r.a);
            unsigned p = ph | k;
            out.push_back({s, p == 3 ? DONE : p, 0});
        }
        break;
    case RC_REG_FEAT: {
        int e = reg_feature(s, r.a);
        if (r.ok) { if (!e && s.feat_id(r.a) == r.b) fin(s); }
        else if (e || r.fault) fin(in);
        break;
    }
    case RC_UNREG_FEAT: {
        int id = s.feat_id(r.a);
        if (r.ok) { if (id >= 0) { s.feat[id] = -1; fin(s); } }
        else if (id < 0) fin(s);
        break;
    }
    case RC_REG_TC: {
        bool e = W.tcname[r.a].empty() || W.cfg.tc[r.a].nofunc;
        for (int i = 0; i < NTC; ++i) if ((s.tc >> i & 1) && W.tcname[i] == W.tcname[r.a]) e = true;
        if (r.ok) { if (!e) { s.tc |= uint8_t(1 << r.a); fin(s); } }
        else if (e || r.fault) fin(in);
        break;
    }
    case RC_UNREG_TC: s.tc &= uint8_t(~(1 << r.a)); fin(s); break;
    case RC_LOOKUP_MIX_ID: if ((r.a < 16 && r.a >= 0 ? s.mix[r.a] : -1) == r.b) fin(s); break;
    case RC_LOOKUP_FEAT_ID: if ((r.a < 8 && r.a >= 0 ? s.feat[r.a] : -1) == r.b) fin(s); break;
    case RC_LOOKUP_MIX_NAME:
        if (r.fault && !r.ok) { fin(s); break; } // an edit by name which failed for another reason
        if (r.b >= 0) { if (s.mix_reg(r.b) && W.mname[r.b] == r.name) fin(s); }
        else if (by_name(s, r.name) < 0) fin(s);
        break;
    case RC_LOOKUP_FEAT_NAME: {
        bool any = false;
        for (int i = 0; i < 8; ++i) if (s.feat[i] >= 0 && W.fname[s.feat[i]] == r.name) any = true;
        if (r.b >= 0) { if (s.feat_id(r.b) >= 0 && W.fname[r.b] == r.name) fin(s); }
        else if (!any) fin(s);
        break;
    }
    case RC_LOOKUP_TC: {
        bool any = false;
        for (int i = 0; i < NTC; ++i) if ((s.tc >> i & 1) && W.tcname[i] == r.name) any = true;
        if (r.b >= 0) { if ((s.tc >> r.b & 1) && W.tcname[r.b] == r.name) fin(s); }
        else if (!any) fin(s);
        break;
    }
    case RC_ADD_RULE:
        if (r.ok) { ++s.rules[r.a]; fin(s); }
        else if (r.fault || r.b) fin(s);
        break;
    case RC_REM_RULE: if (s.rules[r.a]) --s.rules[r.a]; fin(s); break;
    case RC_GET_TYPE: {
        if (ph == 0) {
            if (!r.ok && r.fault) fin(s);
            for (int m = 0; m < NM; ++m) if ((r.named >> m & 1) && !s.mix_reg(m)) {
                if (!r.ok) fin(s);
                return;
            }
            ML l = 0;
            int e = eval_rules(s, r.req, l);
            if (e) { if (!r.ok && !r.fault) fin(s); return; }
            if (r.ok && l != r.list) return;
            if (!ml_n(l)) {
                if (r.ok) { if (r.type == -2 && !(r.has_local && local_fails(r, l, -2))) fin(s); }
                else if (!r.fault && r.has_local && local_fails(r, l, -2)) fin(s);
                return;
            }
            out.push_back({s, 1, l});
            return;
        }
        int i = s.find_type(sc);
        if (r.ok) {
            if (r.has_local && local_fails(r, sc, r.type)) return;
            if (i >= 0) {
                if (s.types[size_t(i)].second == -1) { s.types[size_t(i)].second = r.type; fin(s); }
                else if (s.types[size_t(i)].second == r.type) fin(s);
            }
            else if (!eval_valid(s, sc)) { add_type(s, sc, r.type); fin(s); }
        }
        else {
            bool valid = i >= 0 || !eval_valid(s, sc);
            if (!valid) fin(s);
            else {
                if (r.fault) fin(s);
                if (r.fault || (r.has_local && local_fails(r, sc, i >= 0 ? s.types[size_t(i)].second : -1))) {
                    if (i < 0) add_type(s, sc, -1);
                    fin(s);
                }
            }
        }
        break;
    }
    case RC_GC:
        for (int k : r.keep) { bool f = false; for (auto& t : in.types) if (t.second == k) f = true; if (!f) return; }
        {
            std::vector<int> mb;
            for (int k : r.maybe) for (auto& t : in.types) if (t.second == k) mb.push_back(k);
            for (unsigned set = 0; set < 1u << mb.size(); ++set) {
                DState x = in;
                x.types.erase(std::remove_if(x.types.begin(), x.types.end(), [&](auto& t) {
                    if (t.second < 0) return true;
                    for (size_t i = 0; i < mb.size(); ++i) if ((set >> i & 1) && mb[i] == t.second) return false;
                    return std::find(r.keep.begin(), r.keep.end(), t.second) == r.keep.end();
                }), x.types.end());
                fin(x);
            }
        }
        break;
    case RC_NUM_TYPES: if (int(s.types.size()) == r.a) fin(s); break;
    case RC_NUM_RULES: {
        int n = W.cfg.canon ? 1 : 0;
        for (auto x : s.rules) n += x > 0;
        if (n == r.a) fin(s);
        break;
    }
    case RC_SNAPSHOT: if (!r.snap || snapshot_matches(r, s)) fin(s); break; // none: it was interrupted
    case RC_MD_REG: {
        unsigned n = unsigned(r.rules.size());
        unsigned added = ph & 63, removed = ph >> 8 & 63, mdone = ph >> 6 & 1;
        unsigned all = (1u << n) - 1;
        auto go = [&](const DState& x, unsigned a, unsigned md, unsigned rem) {
            bool d = r.ok ? a == all && md : rem == a && (md || r.fault);
            unsigned p = a | md << 6 | rem << 8 | 1u << 16;
            out.push_back({x, p, 0});
            if (d) fin(x);
        };
        if (!removed) {
            for (unsigned k = 0; k < n; ++k) if (!(added >> k & 1)) { s = in; ++s.rules[r.rules[k]]; go(s, added | 1u << k, mdone, 0); }
            if (!mdone) {
                s = in;
                int e = reg_mixin(s, r.a);
                if (r.ok) { if (!e && s.mix_id(r.a) == r.b) go(s, added, 1, 0); }
                else {
                    if (e) go(s, added, 1, 0);
                    if (r.fault) { std::vector<DState> v; reg_mixin_faulty(in, r.a, v); for (auto& x : v) go(x, added, 1, 0); }
                }
            }
            if (ph == 0 && !r.ok && r.fault) fin(in);
        }
        if (!r.ok && (mdone || r.fault)) {
            for (unsigned k = 0; k < n; ++k) if ((added >> k & 1) && !(removed >> k & 1)) { s = in; if (s.rules[r.rules[k]]) --s.rules[r.rules[k]]; go(s, added, mdone, removed | 1u << k); }
        }
        break;
    }
    case RC_MD_UNREG: {
        unsigned n = unsigned(r.rules.size());
        unsigned all = (1u << (n + 2)) - 1;
        if (ph == 0 && !s.mix_reg(r.a)) return;
        for (unsigned k = 0; k < n + 2; ++k) {
            if (ph >> k & 1) continue;
            s = in;
            if (k < n) { if (s.rules[r.rules[k]]) --s.rules[r.rules[k]]; }
            else if (k == n) remove_types_of(s, r.a);
            else unreg_slot(s, r.a);
            unsigned p = ph | 1u << k;
            out.push_back({s, p == all ? DONE : p, 0});
        }
        break;
    }
    default: fail("harness", "unknown record %d", r.kind);
    }
}

uint64_t shash(const DState& s) {
    uint64_t h = 1469598103934665603ull;
    auto add = [&](const void* p, size_t n) { for (size_t i = 0; i < n; ++i) { h ^= ((const unsigned char*)p)[i]; h *= 1099511628211ull; } };
    add(s.mix, sizeof s.mix); add(s.feat, sizeof s.feat); add(&s.tc, 1); add(s.rules, sizeof s.rules);
    for (auto& t : s.types) { h = rt::mix(h, t.first); h = rt::mix(h, uint64_t(t.second)); }
    return h;
}

std::vector<Rec> hist[rt::MAXF];

// mixins which were unregistered and not requested since: no stored request may refer to them
unsigned gone;
unsigned req_mask(ML l) { unsigned m = 0; for (int i = 0; i < ml_n(l); ++i) m |= 1u << ml_at(l, i); return m; }
void note_gone(const Rec& r) { if ((r.kind == RC_UNREG_MIXIN && r.ok) || r.kind == RC_MD_UNREG) gone |= 1u << r.a; }
void note_requested(const Rec& r) { if (r.kind == RC_GET_TYPE) gone &= ~req_mask(r.req); }
} // namespace

const DState& ds() { return DS.front(); }
bool ds_single() { return DS.size() == 1; }

void dom_apply_now(Rec& r) {
    r.fiber = rt::cur();
    DStates res;
    std::unordered_set<uint64_t> seen, rseen;
    struct Node { DState s; unsigned ph; ML sc; };
    std::vector<Node> st;
    for (auto& s : DS) st.push_back({s, 0, 0});
    Nexts nx;
    while (!st.empty()) {
        Node n = st.back();
        st.pop_back();
        nx.clear();
        steps(r, n.ph, n.sc, n.s, nx);
        for (auto& x : nx) {
            uint64_t h = shash(x.s);
            if (x.phase == DONE) { if (rseen.insert(h).second) res.push_back(x.s); }
            else if (seen.insert(rt::mix(rt::mix(h, x.phase), x.scratch)).second) st.push_back({x.s, x.phase, x.scratch});
        }
    }
    if (res.empty()) {
        std::string c = std::string("domain: ") + rec_names[r.kind];
        std::string x;
        if (r.kind == RC_GET_TYPE) {
            ML l = 0;
            int e = eval_rules(DS[0], r.req, l);
            x = e ? " rules give error " + std::to_string(e) : " rules give " + ml_str(l) + ", validity " + std::to_string(eval_valid(DS[0], l)) + ", exists " + std::to_string(DS[0].find_type(l));
            if (r.has_local) x += ", for an object with " + ml_str(r.old_list);
        }
        fail(c.c_str(), "no explanation of the result of: %s;%s in the state: %s", r.str().c_str(), x.c_str(), DS[0].str().c_str());
    }
    DS.swap(res);
    note_gone(r);
    note_requested(r);
    if (r.kind == RC_SNAPSHOT && r.snap && !r.snap->counts_only) {
        if (gone) for (auto& q : r.snap->queries) if (req_mask(q.first) & gone) fail("stale-request", "the stored request %s refers to a mixin which was unregistered after it", ml_str(q.first).c_str());
    }
}

Rec& hist_begin(int kind) {
    int f = rt::cur();
    auto& h = hist[f];
    if (h.capacity() == 0) h.reserve(256);
    if (h.size() >= 255) fail("harness", "history too long");
    h.emplace_back();
    auto& r = h.back();
    r.kind = kind;
    r.fiber = f;
    r.inv = rt::stamp();
    return r;
}
void hist_end(Rec& r) { r.res = rt::stamp(); }

namespace {
constexpr int LIN_CAP = 60000;
struct Lin {
    size_t n[rt::MAXF];
    std::unordered_set<uint64_t> seen;
    int nodes = 0;
    int best = -1;
    bool over = false;
    size_t bestpos[rt::MAXF];
    DState final;
    bool dfs(const size_t* pos, const unsigned* ph, const ML* sc, const DState& s) {
        bool all = true;
        for (int f = 0; f < rt::MAXF; ++f) if (pos[f] < n[f]) all = false;
        if (all) { final = s; return true; }
        uint64_t h = shash(s);
        int tot = 0;
        for (int f = 0; f < rt::MAXF; ++f) { h = rt::mix(h, pos[f]); h = rt::mix(h, ph[f]); h = rt::mix(h, sc[f]); tot += int(pos[f]); }
        if (!seen.insert(h).second) return false;
        if (++nodes > LIN_CAP) { over = true; return false; }
        if (tot > best) { best = tot; memcpy(bestpos, pos, sizeof bestpos); }
        Nexts nx;
        // try those which returned first
        int ord[rt::MAXF], no = 0;
        for (int f = 0; f < rt::MAXF; ++f) if (pos[f] < n[f]) ord[no++] = f;
        std::sort(ord, ord + no, [&](int a, int b) { return hist[a][pos[a]].res < hist[b][pos[b]].res; });
        uint64_t minres = hist[ord[0]][pos[ord[0]]].res;
        for (int k = 0; k < no; ++k) {
            int f = ord[k];
            auto& r = hist[f][pos[f]];
            if (k > 0 && r.inv > minres) continue;
            nx.clear();
            steps(r, ph[f], sc[f], s, nx);
            for (auto& x : nx) {
                size_t p2[rt::MAXF]; unsigned h2[rt::MAXF]; ML s2[rt::MAXF];
                memcpy(p2, pos, sizeof p2); memcpy(h2, ph, sizeof h2); memcpy(s2, sc, sizeof s2);
                if (x.phase == DONE) { ++p2[f]; h2[f] = 0; s2[f] = 0; }
                else { h2[f] = x.phase; s2[f] = x.scratch; }
                if (dfs(p2, h2, s2, x.s)) return true;
                if (over) return false;
            }
        }
        return false;
    }
};
}

void lin_check() {
    Lin l;
    size_t pos[rt::MAXF] = {};
    unsigned ph[rt::MAXF] = {};
    ML sc[rt::MAXF] = {};
    size_t total = 0;
    for (int f = 0; f < rt::MAXF; ++f) { l.n[f] = hist[f].size(); total += l.n[f]; }
    bool ok = false;
    for (auto& s : DS) if (!l.over && l.dfs(pos, ph, sc, s)) { ok = true; break; }
    rt::R->lin_nodes += l.nodes;
    if (ok) {
        DS.assign(1, l.final);
        for (auto& h : hist) for (auto& r : h) note_gone(r);
        for (auto& h : hist) for (auto& r : h) note_requested(r);
        for (auto& h : hist) h.clear();
        return;
    }
    if (l.over) {
        rt::R->lin_inconclusive = 1;
        rt::R->done = 1;
        list_overflow();
    }
    std::string s;
    for (int f = 0; f < rt::MAXF; ++f) {
        for (size_t i = 0; i < 3 && l.bestpos[f] + i < l.n[f]; ++i) s += "; " + hist[f][l.bestpos[f] + i].str();
    }
    // the kind of the first call which could not be explained
    int k = -1;
    uint64_t best = ~0ull;
    for (int f = 0; f < rt::MAXF; ++f) if (l.bestpos[f] < l.n[f] && hist[f][l.bestpos[f]].res < best) { best = hist[f][l.bestpos[f]].res; k = hist[f][l.bestpos[f]].kind; }
    std::string c = std::string("history: ") + (k >= 0 ? rec_names[k] : "?");
    fail(c.c_str(), "no sequential order explains the concurrent calls; %d of %d are explained, then come%s", l.best, int(total), s.c_str());
}
