// The JSON formats: documents, valid and mutated, read by the real parsers; objects printed by the library and read back.
#include "common.h"
#include "parsing/PdaJsonParser.h"
#include "parsing/PAutomatonJsonParser.h"
#include "parsing/SolverInstanceJsonParser.h"
#include <pdaaal/PDA.h>
#include <pdaaal/PAutomaton.h>
#include <pdaaal/PAutomatonProduct.h>
#include <algorithm>
#include <memory>
#include <set>
#include <sstream>

using namespace pdaaal;
using namespace vf;

// ---- document trees ----
struct T {
    enum K { obj, arr, str, num, flt, boo, nul, bad } k = nul;
    std::vector<std::pair<std::string, T>> m;
    std::vector<T> e;
    std::string s;
    bool neg = false, b = false;
    uint64_t v = 0;
    static T S(const std::string& s) { T t; t.k = str; t.s = s; return t; }
    static T N(uint64_t v, bool neg = false) { T t; t.k = num; t.v = v; t.neg = neg && v; return t; }
    static T B(bool b) { T t; t.k = boo; t.b = b; return t; }
    static T A(std::vector<T> e = {}) { T t; t.k = arr; t.e = std::move(e); return t; }
    static T O(std::vector<std::pair<std::string, T>> m = {}) { T t; t.k = obj; t.m = std::move(m); return t; }
    static T F() { T t; t.k = flt; return t; }
    static T Z() { return T{}; }
};
static std::string num_js(bool neg, uint64_t v) {
    uint64_t hi = std::min<uint64_t>(v >> 16, 1u << 30);
    return "[" + js(neg) + "," + js(hi) + "," + js(v & 0xffff) + "]";
}
static std::string tree_js(const T& t) {
    switch (t.k) {
        case T::obj: { std::vector<raw> r; for (auto& [k, v] : t.m) r.push_back(Obj().f("k", k).f("v", raw{tree_js(v)}).r()); return Obj().f("t", "obj").f("m", r).str(); }
        case T::arr: { std::vector<raw> r; for (auto& v : t.e) r.push_back(raw{tree_js(v)}); return Obj().f("t", "arr").f("e", r).str(); }
        case T::str: return Obj().f("t", "str").f("s", t.s).str();
        case T::num: return Obj().f("t", "int").f("neg", t.neg).f("hi", std::min<uint64_t>(t.v >> 16, 1u << 30)).f("lo", t.v & 0xffff).str();
        case T::flt: return "{\"t\":\"flt\"}";
        case T::boo: return Obj().f("t", "bool").f("b", t.b).str();
        case T::nul: return "{\"t\":\"null\"}";
        case T::bad: return "{\"t\":\"bad\"}";
    }
    return "";
}
// Text, with random white space and escapes.
static std::string text(Rng& g, const T& t, int ws) {
    auto sp = [&]() { std::string r; while (ws && g.chance(ws)) r += " \n\t\r"[g.below(4)]; return r; };
    auto st = [&](const std::string& s) {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
            else if (c < 0x20 || (c < 0x7f && ws && g.chance(5))) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char)c;
        }
        return r + "\"";
    };
    std::string r = sp();
    switch (t.k) {
        case T::obj: { r += "{" + sp(); bool f = true; for (auto& [k, v] : t.m) { if (!f) r += ","; f = false; r += sp() + st(k) + sp() + ":" + text(g, v, ws); } r += "}"; break; }
        case T::arr: { r += "[" + sp(); bool f = true; for (auto& v : t.e) { if (!f) r += ","; f = false; r += text(g, v, ws); } r += "]"; break; }
        case T::str: r += st(t.s); break;
        case T::num: r += (t.neg ? "-" : "") + std::to_string(t.v); break;
        case T::flt: { static const char* f[] = {"1.5", "1e2", "3.0", "-0.25", "1.0"}; r += f[g.below(5)]; break; }
        case T::boo: r += t.b ? "true" : "false"; break;
        default: r += "null";
    }
    return r + sp();
}
static bool dup_keys(const T& t) {
    std::set<std::string> s;
    for (auto& [k, v] : t.m) if (!s.insert(k).second || dup_keys(v)) return true;
    for (auto& v : t.e) if (dup_keys(v)) return true;
    return false;
}
static nlohmann::ordered_json to_nl(const T& t) {
    using J = nlohmann::ordered_json;
    switch (t.k) {
        case T::obj: { J j = J::object(); for (auto& [k, v] : t.m) j[k] = to_nl(v); return j; }
        case T::arr: { J j = J::array(); for (auto& v : t.e) j.push_back(to_nl(v)); return j; }
        case T::str: return t.s;
        case T::num: if (t.neg) return -(int64_t)t.v; return t.v;
        case T::flt: return 1.5;
        case T::boo: return t.b;
        default: return nullptr;
    }
}
// A tree from text, through the SAX interface of the JSON library.
struct Builder {
    std::vector<T> st; std::vector<std::string> keys; T root; bool done = false;
    bool put(T t) { if (st.empty()) root = std::move(t); else if (st.back().k == T::arr) st.back().e.push_back(std::move(t)); else { st.back().m.emplace_back(keys.back(), std::move(t)); keys.pop_back(); } return true; }
    bool null() { return put(T::Z()); }
    bool boolean(bool b) { return put(T::B(b)); }
    bool number_integer(int64_t v) { return v < 0 ? put(T::N((uint64_t)0 - (uint64_t)v, true)) : put(T::N((uint64_t)v)); }
    bool number_unsigned(uint64_t v) { return put(T::N(v)); }
    bool number_float(double, const std::string&) { return put(T::F()); }
    bool string(std::string& s) { return put(T::S(s)); }
    bool binary(nlohmann::json::binary_t&) { return put(T::Z()); }
    bool start_object(size_t = -1) { st.push_back(T::O()); return true; }
    bool key(std::string& k) { keys.push_back(k); return true; }
    bool end_object() { T t = std::move(st.back()); st.pop_back(); return put(std::move(t)); }
    bool start_array(size_t = -1) { st.push_back(T::A()); return true; }
    bool end_array() { return end_object(); }
    bool parse_error(size_t, const std::string&, const nlohmann::detail::exception&) { return false; }
};
static T from_text(const std::string& s) { Builder b; if (!nlohmann::json::sax_parse(s, &b)) { T t; t.k = T::bad; return t; } return b.root; }

// ---- contents of objects ----
template <typename N> static std::string n_js(N v) { return v < 0 ? num_js(true, (uint64_t)(-(int64_t)v)) : num_js(false, (uint64_t)v); }
template <typename W, typename R> static std::string w_js(const R& r) {
    if constexpr (!W::is_weight) return "[]";
    else if constexpr (W::is_vector) { std::string s = "["; bool f = true; for (auto x : r._weight) { if (!f) s += ","; f = false; s += n_js(x); } return s + "]"; }
    else return "[" + n_js(r._weight) + "]";
}
template <typename P> static size_t n_states(const P& p) { size_t n = p.states().size(); if constexpr (!P::expose_skip_state_mapping) n = std::max(n, p.state_map_size()); return n; }
template <typename S> static std::string nm(const S& s) { if constexpr (std::is_same_v<S, std::string>) return s; else return std::to_string(s); }
template <typename W, typename P> static std::string pda_js(const P& p) {
    std::vector<std::string> names, labels;
    for (size_t i = 0; i < n_states(p); ++i) names.push_back(nm(p.get_state(i)));
    for (uint32_t i = 0; i < p.number_of_labels(); ++i) labels.push_back(p.get_symbol(i));
    std::vector<raw> rs; size_t i = 0;
    for (auto& s : p.states()) {
        for (auto& [r, ls] : s._rules) {
            std::vector<std::string> pre;
            if (ls.wildcard()) pre.push_back("*"); else for (auto l : ls.labels()) pre.push_back(p.get_symbol(l));
            const char* op = r._operation == POP ? "pop" : r._operation == SWAP ? "swap" : r._operation == PUSH ? "push" : "noop";
            for (auto& l : pre)
                rs.push_back(Obj().f("from", nm(p.get_state(i))).f("pre", l).f("op", op).f("opl", r._operation == PUSH || r._operation == SWAP ? p.get_symbol(r._op_label) : std::string())
                             .f("to", nm(p.get_state(r._to))).f("w", raw{w_js<W>(r)}).r());
        }
        ++i;
    }
    return Obj().f("states", names).f("rules", rs).f("labels", labels).str();
}
template <typename A, typename P> static std::string aut_js(const A& a, const P& p) {
    size_t n = p.states().size();
    auto st = [&](size_t id) { return id < n ? std::vector<std::string>{"p", nm(p.get_state(id))} : std::vector<std::string>{"x", std::to_string(id)}; };
    std::vector<raw> es; std::vector<std::vector<std::string>> acc; std::vector<long> extra;
    for (auto& s : a.states()) {
        if (s->_id >= n) extra.push_back((long)s->_id);
        if (s->_accepting) acc.push_back(st(s->_id));
        for (auto& [to, ls] : s->_edges) for (auto& [l, tw] : ls) {
            std::string lab = l == A::epsilon ? std::string() : p.get_symbol(l);
            es.push_back(raw{"[" + js(st(s->_id)) + "," + js(lab) + "," + js(st(to)) + "]"});
        }
    }
    return Obj().f("edges", es).f("acc", acc).f("extra", extra).str();
}

// ---- random documents ----
static const std::vector<std::string> NAMES{"p", "q", "r0", "0", "1", "to", "states", "a b", "q\"x", "\xc3\xa9", "", "*"};
static const std::vector<std::string> LABELS{"A", "B", "C", "to", "weight", "pop", "a b", "\\\"", "\xc3\xa9", "7"};
static const char* WTS[] = {"none", "uint", "int", "vuint", "vint"};

struct Gen {
    Rng& g; bool named; int wt; bool big; int n; std::vector<std::string> names, labels;
    Gen(Rng& g, bool named, int wt) : g(g), named(named), wt(wt), big(g.chance(6)), n(big ? g.range(5, 14) : g.range(1, 4)) {
        auto pick = [&](const std::vector<std::string>& from, int k) { std::vector<std::string> r, v = from; for (int i = 0; i < k && !v.empty(); ++i) { int j = g.chance(60) ? 0 : g.below(v.size()); r.push_back(v[j]); v.erase(v.begin() + j); } return r; };
        names = pick(NAMES, n); while ((int)names.size() < n) names.push_back("s" + std::to_string(names.size())); labels = pick(LABELS, big ? g.range(2, 8) : g.range(1, 3));
    }
    template <typename E> void shuffle(std::vector<E>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.below(i)]); }
    T wnum() {
        bool s = wt == 2 || wt == 4;
        switch (g.below(12)) {
            case 0: return T::N(s ? 2147483646u : 4294967294u);
            case 1: return s ? T::N(2147483647u, true) : T::N(65536);
            case 2: return T::N(g.below(100000), s);
            case 3: return T::N(0);
            default: return T::N(g.below(6), s && g.chance(40));
        }
    }
    T weight() { if (wt < 3) return wnum(); std::vector<T> e; int k = g.chance(15) ? 0 : g.range(1, big ? 6 : 3); for (int i = 0; i < k; ++i) e.push_back(wnum()); return T::A(e); }
    T pstate(bool other = false) { return named ? T::S(other && g.chance(10) ? std::string("elsewhere") : g.pick(names)) : T::N(other && g.chance(15) ? n + g.below(2) : g.below(n)); }
    T rule(bool wild) {
        std::vector<std::pair<std::string, T>> m;
        m.emplace_back("to", pstate(true));
        switch (g.below(3)) { case 0: m.emplace_back("pop", T::S("")); break; case 1: m.emplace_back("push", T::S(g.pick(labels))); break; default: m.emplace_back("swap", T::S(wild && g.chance(50) ? std::string("*") : g.pick(labels))); }
        if (wt) m.emplace_back("weight", weight());
        shuffle(m);
        return T::O(m);
    }
    T state() {
        std::vector<std::pair<std::string, T>> m;
        int k = g.below(big && g.chance(20) ? 8 : 4);
        for (int i = 0; i < k; ++i) {
            bool wild = g.chance(15);
            std::string l = wild ? std::string("*") : g.pick(labels);
            bool seen = false; for (auto& x : m) seen = seen || x.first == l;
            if (seen && g.chance(80)) continue;
            if (g.chance(65)) m.emplace_back(l, rule(wild));
            else { std::vector<T> e; int c = g.below(4); for (int j = 0; j < c; ++j) e.push_back(rule(wild)); m.emplace_back(l, T::A(e)); }
        }
        return T::O(m);
    }
    T junk(int d = 0) {
        switch (g.below(d > 2 ? 6 : 9)) {
            case 0: return T::S(g.pick(LABELS)); case 1: return T::N(g.below(9)); case 2: return T::N(g.range(1, 9), true); case 3: return T::F(); case 4: return T::B(g.chance(50)); case 5: return T::Z();
            case 6: { std::vector<T> e; int c = g.below(4); for (int i = 0; i < c; ++i) e.push_back(junk(d + 1)); return T::A(e); }
            default: { std::vector<std::pair<std::string, T>> m; int c = g.below(4); static const std::vector<std::string> ks{"x", "states", "pda", "to", "y"}; for (int i = 0; i < c; ++i) m.emplace_back(g.pick(ks), junk(d + 1)); return T::O(m); }
        }
    }
    T pda() {
        T s;
        if (named) { s = T::O(); int k = 0; for (auto& x : names) if (k++ == 0 || g.chance(85)) s.m.emplace_back(x, state()); shuffle(s.m); if (g.chance(3)) s.m.clear(); }
        else { s = T::A(); for (int i = 0; i < n; ++i) s.e.push_back(state()); if (g.chance(3)) s.e.clear(); }
        std::vector<std::pair<std::string, T>> m{{"states", s}};
        while (g.chance(15)) m.emplace_back(g.chance(50) ? "comment" : "x", junk());
        shuffle(m);
        return T::O(m);
    }
    T astate(bool pda_state = false) {
        if (pda_state || g.chance(45)) return pstate();
        if (named) return g.chance(40) ? T::N(g.below(6)) : T::S(std::string("e") + std::to_string(g.below(3)));
        return T::N(n + g.below(4));
    }
    T aut(bool init) {
        std::vector<T> es, acc, in;
        int k = g.below(big ? 12 : 5);
        for (int i = 0; i < k; ++i) { std::string l = g.chance(12) ? std::string() : g.chance(8) ? std::string("Fresh") : g.pick(labels); es.push_back(T::A({astate(g.chance(40)), T::S(l), astate()})); }
        for (int i = g.below(3); i > 0; --i) acc.push_back(astate());
        std::vector<std::pair<std::string, T>> m{{"accepting", T::A(acc)}, {"edges", T::A(es)}};
        if (init || g.chance(20)) { for (int i = g.below(3); i > 0; --i) in.push_back(pstate()); m.emplace_back("initial", T::A(in)); }
        shuffle(m);
        return T::O(m);
    }
    T type() {
        T w;
        switch (wt) { case 0: w = T::S("none"); break; case 1: w = T::S("uint"); break; case 2: w = T::S("int"); break; default: w = T::A({T::S(wt == 3 ? "uint" : "int")}); if (g.chance(30)) w.e.push_back(T::N(g.below(4))); }
        std::vector<std::pair<std::string, T>> m{{"state-names", T::B(named)}, {"weight-type", w}};
        shuffle(m);
        return T::O(m);
    }
};

// ---- mutation ----
struct Ref { T* node; T* parent; size_t i; };
static void refs(T& t, T* parent, size_t i, std::vector<Ref>& out) {
    out.push_back({&t, parent, i});
    for (size_t j = 0; j < t.m.size(); ++j) refs(t.m[j].second, &t, j, out);
    for (size_t j = 0; j < t.e.size(); ++j) refs(t.e[j], &t, j, out);
}
static void mutate(Gen& G, T& root) {
    Rng& g = G.g;
    static const std::vector<std::string> KEYS{"to", "pop", "swap", "push", "weight", "states", "pda", "x", "accepting", "edges", "initial", "P-automaton", "instance", "state-names", "weight-type", "A", "*", "p"};
    std::vector<Ref> r; refs(root, nullptr, 0, r);
    Ref x = r[g.chance(15) ? 0 : g.below(r.size())];
    T& t = *x.node;
    auto scalar = [&]() -> T {
        switch (g.below(10)) {
            case 0: return T::N(g.below(6), true); case 1: return T::F(); case 2: return T::Z(); case 3: return T::B(g.chance(50)); case 4: return T::S("");
            case 5: return T::S(g.pick(std::vector<std::string>{"*", "A", "p", "0", "none", "uint", "int", "float", "Uint"}));
            case 6: { static const uint64_t big[] = {2147483646ull, 2147483647ull, 2147483648ull, 4294967294ull, 4294967295ull, 4294967296ull, 1ull << 40, ~0ull, 9223372036854775807ull}; uint64_t v = big[g.below(9)]; return T::N(v, v < (1ull << 62) && g.chance(40)); }
            default: return T::N(g.below(7));
        }
    };
    switch (g.below(10)) {
        case 0: case 1: t = scalar(); break;
        case 2: { T c = t; t = T::A({c}); break; }                                      // wrap
        case 3: if (t.k == T::arr && !t.e.empty()) { T c = t.e[0]; t = c; } else if (t.k == T::obj && !t.m.empty()) { T c = t.m[0].second; t = c; } else t = g.chance(50) ? T::A() : T::O(); break;
        case 4: if (x.parent) { if (x.parent->k == T::obj) x.parent->m.erase(x.parent->m.begin() + x.i); else x.parent->e.erase(x.parent->e.begin() + x.i); } break;
        case 5: if (x.parent) { if (x.parent->k == T::obj) { auto c = x.parent->m[x.i]; x.parent->m.push_back(c); } else { T c = x.parent->e[x.i]; x.parent->e.push_back(c); } } break;
        case 6: if (x.parent && x.parent->k == T::obj) x.parent->m[x.i].first = g.pick(KEYS); else if (t.k == T::obj && !t.m.empty()) t.m[g.below(t.m.size())].first = g.pick(KEYS); break;
        case 7: if (t.k == T::obj) t.m.emplace_back(g.pick(KEYS), g.chance(50) ? scalar() : G.junk()); else if (t.k == T::arr) t.e.push_back(g.chance(50) ? scalar() : G.junk()); else t = G.junk(); break;
        case 8: { T c = *r[g.below(r.size())].node; t = c; break; }                     // transplant
        default: if (t.k == T::arr && t.e.size() > 1) std::swap(t.e[0], t.e[1]); else if (t.k == T::str) t = T::N(g.below(5)); else if (t.k == T::num) t = T::S(std::to_string(t.v)); else t = T::O();
    }
}
// A target beyond the listed states asks for that many states: keep it small.
static void tame(T& t) { for (auto& [k, v] : t.m) { if (k == "to" && v.k == T::num && v.v > 39) v.v %= 40; tame(v); } for (auto& v : t.e) tame(v); }

struct Doc { T tree; std::string bytes; bool msgpack = false; };
static Doc make_doc(Gen& G, T tree, bool mutated) {
    Rng& g = G.g;
    Doc d;
    if (mutated) { int k = g.chance(75) ? 1 : g.range(2, 4); for (int i = 0; i < k; ++i) mutate(G, tree); }
    tame(tree);
    d.tree = tree;
    if (g.chance(15) && !dup_keys(tree)) {
        auto v = nlohmann::ordered_json::to_msgpack(to_nl(tree));
        d.bytes.assign(v.begin(), v.end()); d.msgpack = true;
        return d;
    }
    d.bytes = text(g, tree, g.chance(50) ? 30 : 0);
    if (mutated && g.chance(8)) {
        std::string s = d.bytes;
        switch (g.below(4)) { case 0: s = s.substr(0, g.below(s.size() + 1)); break; case 1: s += g.chance(50) ? "}" : " 1"; break; case 2: s.erase(g.below(s.size()), 1); break; default: s.insert(g.below(s.size() + 1), 1, "{}[],:\"x"[g.below(8)]); }
        T t = from_text(s);
        tame(t); // only to find out whether it would be changed
        if (tree_js(t) == tree_js(from_text(s))) { d.bytes = s; d.tree = t; }
    }
    return d;
}
static Obj base_ev(const char* kind, bool named, int wt, const Doc& d) { return Obj().f("ev", "parse").f("kind", kind).f("named", named).f("wt", WTS[wt]).f("doc", raw{tree_js(d.tree)}); }
static auto fmt(const Doc& d) { return d.msgpack ? nlohmann::json::input_format_t::msgpack : nlohmann::json::input_format_t::json; }

template <typename W, bool named> static auto parse_pda(const std::string& s, nlohmann::json::input_format_t f) { std::istringstream in(s); std::ostringstream w; return parsing::PdaJsonParser::parse<W, named>(in, w, f); }

template <typename W, bool named> static void pda_case(Rng& g, int wt) {
    Gen G(g, named, wt);
    std::vector<std::pair<std::string, T>> m{{"pda", G.pda()}};
    while (g.chance(15)) m.emplace_back(g.chance(50) ? "note" : "states", G.junk());
    G.shuffle(m);
    Doc d = make_doc(G, T::O(m), g.chance(60));
    Obj o = base_ev("pda", named, wt, d);
    doing("PdaJsonParser");
    try { auto p = parse_pda<W, named>(d.bytes, fmt(d)); o.f("ok", true).f("pda", raw{pda_js<W>(p)}); } catch (std::runtime_error&) { o.f("ok", false); }
    emit(o);
}
template <typename W, bool named> static void aut_case(Rng& g, int wt) {
    Gen G(g, named, wt);
    T base = G.pda();
    auto p = parse_pda<W, named>(text(g, T::O({{"pda", base}}), 0), nlohmann::json::input_format_t::json);
    Doc d = make_doc(G, T::O({{"P-automaton", G.aut(true)}}), g.chance(60));
    Obj o = base_ev("aut", named, wt, d);
    o.f("base", raw{tree_js(base)});
    doing("PAutomatonJsonParser");
    std::istringstream in(d.bytes);
    auto go = [&](auto&& parse) { try { auto a = parse(); o.f("ok", true).f("I", raw{aut_js(a, p)}); } catch (std::runtime_error&) { o.f("ok", false); } };
    if (g.chance(75)) go([&] { return parsing::PAutomatonJsonParser::parse<TraceInfoType::Single>(in, p, fmt(d)); });
    else go([&] { return parsing::PAutomatonJsonParser::parse<TraceInfoType::Pair>(in, p, fmt(d)); });
    emit(o);
}
#if KIND
template <TraceInfoType ti> static void inst_read(Obj& o, const std::string& s, nlohmann::json::input_format_t f) {
    std::istringstream in(s);
    doing("SolverInstanceJsonParser");
    try {
        auto v = parsing::SolverInstanceJsonParser::parse<ti>(in, f);
        std::visit([&](auto&& i) {
            using P = std::remove_cvref_t<decltype(i->pda())>;
            o.f("ok", true).f("pda", raw{pda_js<typename P::weight>(i->pda())}).f("I", raw{aut_js(i->initial_automaton(), i->pda())}).f("F", raw{aut_js(i->final_automaton(), i->pda())});
            o.f("isnamed", !P::expose_skip_state_mapping);
        }, v);
    } catch (std::runtime_error&) { o.f("ok", false); }
}
static void inst_case(Rng& g) {
    bool named = g.chance(50); int wt = g.below(5);
    Gen G(g, named, wt);
    T t = T::O({{"instance", T::A({G.type(), G.pda(), G.aut(false), G.aut(false)})}});
    Doc d = make_doc(G, t, g.chance(60));
    Obj o = base_ev("inst", named, wt, d);
    if (g.chance(70)) inst_read<TraceInfoType::Single>(o, d.bytes, fmt(d)); else inst_read<TraceInfoType::Pair>(o, d.bytes, fmt(d));
    emit(o);
}

// ---- objects built through the API, printed, and read back ----
template <typename W> static auto api_weight(Gen& G) {
    if constexpr (W::is_weight) {
        using V = typename W::type;
        auto one = [&](auto z) { using N = decltype(z); T t = G.wnum(); return (N)(t.neg ? -(int64_t)t.v : (int64_t)t.v); };
        if constexpr (W::is_vector) { V v; int k = G.g.range(0, 3); for (int i = 0; i < k; ++i) v.push_back(one(typename V::value_type{})); return v; }
        else return one(V{});
    } else return 0;
}
template <typename W, bool named, typename S> static void print_case(Rng& g, int wt) {
    Gen G(g, named, wt);
    using H = PDA<std::string, W, fut::type::hash, S>;
    using P = PDA<std::string, W, fut::type::vector, S>;
    std::vector<S> names;
    for (int i = 0; i < G.n; ++i) { if constexpr (std::is_same_v<S, std::string>) names.push_back(G.names[i]); else if constexpr (std::is_same_v<S, int>) names.push_back(7 * i - 3); else names.push_back(i); }
    doing("building a PDA");
    std::unordered_set<std::string> ls(G.labels.begin(), G.labels.end());
    if (g.chance(30)) ls.insert("unused");
    auto from_id = [&](auto& pda, const S& x) -> size_t { if constexpr (named) return pda.insert_state(x); else return x; };
    auto fill = [&](auto& pda) {
        if constexpr (named) for (auto& s : names) if (g.chance(50)) pda.insert_state(s);
        int k = g.below(G.big ? 30 : 9);
        for (int i = 0; i < k; ++i) {
            S from = g.pick(names), to = g.pick(names);
            op_t op = g.below(4) == 0 ? POP : g.below(3) == 0 ? NOOP : g.chance(50) ? SWAP : PUSH;
            std::string ol = g.pick(G.labels);
            bool wild = g.chance(20);
            std::vector<std::string> pre; for (auto& l : G.labels) if (g.chance(50)) pre.push_back(l);
            if (pre.empty()) pre.push_back(G.labels[0]);
            auto w = api_weight<W>(G);
            size_t f = from_id(pda, from), t = from_id(pda, to);
            if constexpr (W::is_weight) pda.add_rule(f, t, op, ol, wild, wild ? std::vector<std::string>{} : pre, w);
            else pda.add_rule(f, t, op, ol, wild, wild ? std::vector<std::string>{} : pre);
        }
    };
    std::unique_ptr<H> h = std::make_unique<H>(ls);
    fill(*h);
    auto emit_print = [&](const char* kind, const nlohmann::json& j, const Obj& content) {
        T t = from_text(j.dump());
        Obj o = content;
        emit(o.f("ev", "print").f("kind", kind).f("named", named).f("wt", WTS[wt]).f("doc", raw{tree_js(t)}));
    };
    if (g.chance(30)) { doing("to_json of a PDA with hashed rules"); emit_print("pda", h->to_json(), Obj().f("pda", raw{pda_js<W>(*h)})); }
    P p(std::move(*h));
    if (g.chance(50)) {
        doing("to_json of a PDA");
        auto j = p.to_json();
        emit_print("pda", j, Obj().f("pda", raw{pda_js<W>(p)}));
        if constexpr (std::is_same_v<S, std::string> || std::is_same_v<S, size_t>) {
            Doc d; d.bytes = j.dump(); d.tree = from_text(d.bytes);
            if (g.chance(30)) { auto v = nlohmann::json::to_msgpack(j); d.bytes.assign(v.begin(), v.end()); d.msgpack = true; }
            Obj o = base_ev("pda", named, wt, d);
            doing("PdaJsonParser on printed PDA");
            try { auto q = parse_pda<W, named>(d.bytes, fmt(d)); o.f("ok", true).f("pda", raw{pda_js<W>(q)}); } catch (std::runtime_error&) { o.f("ok", false); }
            emit(o);
        }
        return;
    }
    size_t np = p.states().size();
    using A = PAutomaton<std::string, W, S, !named, TraceInfoType::Single>;
    auto mk = [&]() {
        std::vector<size_t> acc; for (size_t i = 0; i < np; ++i) if (g.chance(20)) acc.push_back(i);
        A a(p, acc);
        int ex = g.below(3); std::vector<size_t> all; for (size_t i = 0; i < a.states().size(); ++i) all.push_back(i);
        for (int i = 0; i < ex; ++i) all.push_back(a.add_state(false, g.chance(40)));
        if (all.empty()) return a;
        int k = g.below(6);
        for (int i = 0; i < k; ++i) {
            size_t f = g.pick(all), t = g.pick(all);
            if (g.chance(10)) a.add_epsilon_edge(f, t); else a.add_edge(f, t, g.below(p.number_of_labels()));
        }
        return a;
    };
    if (np == 0) return;
    doing("building P-automata");
    if (g.chance(40)) {
        A a = mk();
        doing("to_json of a P-automaton");
        auto j = a.to_json();
        T t = from_text(j.dump()), base = from_text(nlohmann::json(p).dump());
        emit(Obj().f("ev", "print").f("kind", "aut").f("named", named).f("wt", WTS[wt]).f("doc", raw{tree_js(t)}).f("base", raw{tree_js(base)}).f("I", raw{aut_js(a, p)}));
        if constexpr (std::is_same_v<S, std::string> || std::is_same_v<S, size_t>) {
            Doc d; d.bytes = j.dump(); d.tree = t;
            Obj o = base_ev("aut", named, wt, d); o.f("base", raw{tree_js(base)});
            std::istringstream in(d.bytes);
            doing("PAutomatonJsonParser on printed automaton");
            try { auto b = parsing::PAutomatonJsonParser::parse<TraceInfoType::Single>(in, p); o.f("ok", true).f("I", raw{aut_js(b, p)}); } catch (std::runtime_error&) { o.f("ok", false); }
            emit(o);
        }
    } else {
        PAutomatonProduct prod(p, mk(), mk());
        doing("to_json of an instance");
        auto j = prod.to_json();
        emit_print("inst", j, Obj().f("pda", raw{pda_js<W>(p)}).f("I", raw{aut_js(prod.initial_automaton(), p)}).f("F", raw{aut_js(prod.final_automaton(), p)}));
        Doc d; d.bytes = j.dump(); d.tree = from_text(d.bytes);
        if (g.chance(30)) { auto v = nlohmann::json::to_msgpack(j); d.bytes.assign(v.begin(), v.end()); d.msgpack = true; }
        if constexpr (std::is_same_v<S, std::string> || std::is_same_v<S, size_t>) {
            Obj o = base_ev("inst", named, wt, d);
            inst_read<TraceInfoType::Single>(o, d.bytes, fmt(d));
            emit(o);
        }
    }
}

#endif

template <typename F> static void with_type(int wt, F f) {
    switch (wt) {
        case 0: f((weight<void>*)nullptr); break;
        case 1: f((weight<uint32_t>*)nullptr); break;
        case 2: f((weight<int32_t>*)nullptr); break;
        case 3: f((weight<std::vector<uint32_t>>*)nullptr); break;
        default: f((weight<std::vector<int32_t>>*)nullptr); break;
    }
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    return run_cases(a.lo, a.hi, 10, [&](long i) {
        Rng g(a.seed * 1000003 + (uint64_t)i * 7919 + (a.mode == "print" ? 77 : a.mode == "inst" ? 33 : 0));
        emit(Obj().f("ev", "new").f("case", i));
#if KIND == 2
        inst_case(g);
#endif
        int wt = g.below(5); bool named = g.chance(50);
        with_type(wt, [&](auto* w) {
            using W = std::remove_pointer_t<decltype(w)>;
#if KIND == 0
            if (g.chance(50)) { if (named) pda_case<W, true>(g, wt); else pda_case<W, false>(g, wt); }
            else { if (named) aut_case<W, true>(g, wt); else aut_case<W, false>(g, wt); }
#elif KIND == 1
            if (!named) print_case<W, false, size_t>(g, wt);
            else if (g.chance(20)) print_case<W, true, int>(g, wt);
            else print_case<W, true, std::string>(g, wt);
#endif
        });
    });
}
