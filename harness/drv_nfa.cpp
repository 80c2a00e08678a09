// Conformance driver for the NFA combinators: histories of operations on a few registers, with observations.
#include "nfa_util.h"
#include <optional>
#include <set>
using namespace pdaaal;
using namespace vf;
// Label numbers as symbols of the type T; the order of the symbols is that of the numbers.
template <typename T> struct Sym { static T mk(int l) { return (T)('a' + l); } static int un(const T& x) { return (int)(x - 'a'); } };
template <> struct Sym<uint32_t> { static uint32_t mk(int l) { return l == 0 ? 0 : l < 3 ? 254 + l : l < 6 ? 65533 + l : 0xfffffff0u + l; } static int un(uint32_t x) { return x == 0 ? 0 : x < 300 ? (int)x - 254 : x < 70000 ? (int)x - 65533 : (int)(x - 0xfffffff0u); } };
template <> struct Sym<size_t> { static size_t mk(int l) { return l == 0 ? 0 : ((size_t)1 << 32) * l + l; } static int un(size_t x) { return (int)(x >> 32); } };
template <> struct Sym<std::string> { static std::string mk(int l) { return l == 0 ? "" : std::string(20, 'l') + (char)('a' + l); } static int un(const std::string& x) { return x.empty() ? 0 : x.back() - 'a'; } };

template <typename T>
struct Sess {
    using nfa_t = NFA<T>;
    using state_t = typename nfa_t::state_t;
    static T sym(int l) { return Sym<T>::mk(l); }
    int nl, k; Rng& g;
    std::vector<std::optional<nfa_t>> reg;
    std::vector<int> size;
    Sess(Rng& g, int nl, int k) : nl(nl), k(k), g(g), reg(4), size(4, 0) {}
    void observe(int r, bool graph) {
        doing("observe");
        nfa_t c(*reg[r]);
        c.compile();
        Obj o; o.f("ev", "obs").f("r", r).f("acc", nfa_accepted<T>(c, nl, k, sym)).f("empty", c.empty_accept());
        emit(o);
        if (!graph) return;
        std::map<const state_t*, int> id;
        std::vector<const state_t*> st;
        for (auto& s : c.states()) { id[s.get()] = (int)st.size(); st.push_back(s.get()); }
        auto ids = [&](const auto& v) { std::vector<int> x; for (auto s : v) x.push_back(id.at(s)); return x; };
        std::string es = "["; bool first = true;
        for (auto s : st) for (auto& e : s->_edges) {
            std::vector<int> ls; for (auto& x : e._symbols) ls.push_back(Sym<T>::un(x));
            if (!first) es += ","; first = false;
            es += "[" + js(id.at(s)) + "," + js(id.at(e._destination)) + "," + js(e._epsilon) + "," + js(e._negated) + "," + js(ls) + "]";
        }
        es += "]";
        std::vector<int> acc; for (auto s : st) if (s->_accepting) acc.push_back(id.at(s));
        std::vector<raw> qs;
        if (!st.empty()) for (int n = 0; n < 8; ++n) {
            std::set<const state_t*> fs; int m = g.range(1, 3);
            for (int i = 0; i < m; ++i) fs.insert(st[g.below(st.size())]);
            std::vector<const state_t*> from(fs.begin(), fs.end());
            if (g.chance(30)) from.assign(c.initial().begin(), c.initial().end());
            auto to = st[g.below(st.size())];
            if (g.chance(60)) { auto cand = nfa_t::successor(from, sym(g.below(nl))); if (!cand.empty()) to = cand[g.below(cand.size())]; }
            std::vector<T> ls; std::vector<int> li;
            for (int l = 0; l < nl; ++l) if (g.chance(70)) { ls.push_back(sym(l)); li.push_back(l); }
            auto num = [](const std::vector<T>& v) { std::vector<int> r; for (auto& x : v) r.push_back(Sym<T>::un(x)); return r; };
            switch (g.below(8)) {
                case 6: case 7: { doing("edge"); auto f = st[g.below(st.size())]; if (f->_edges.empty()) { doing("has_non_epsilon"); qs.push_back(Obj().f("q", "noneps").f("from", id.at(f)).f("res", f->has_non_epsilon()).r()); break; }
                    size_t j = g.below(f->_edges.size()); auto& e = f->_edges[j]; std::vector<int> has, raw_; for (int l = 0; l < nl; ++l) if (e.contains(sym(l))) has.push_back(l);
                    for (auto& x : e._symbols) raw_.push_back(Sym<T>::un(x));
                    qs.push_back(Obj().f("q", "edge").f("e", vf::raw{"[" + js(id.at(f)) + "," + js(id.at(e._destination)) + "," + js(e._epsilon) + "," + js(e._negated) + "," + js(raw_) + "]"})
                        .f("has", has).f("none", e.empty(nl)).f("all", e.wildcard(nl)).f("follow", ids(e.follow_epsilon())).f("noneps", f->has_non_epsilon()).f("one", nfa_t::has_as_successor(f, sym(0), to)).f("to", id.at(to)).r());
                    break; }
                case 5: { doing("prelabels"); std::unordered_set<T> all; for (int l = 0; l < nl; ++l) all.insert(sym(l)); qs.push_back(Obj().f("q", "prel").f("to", id.at(to)).f("res", num(to->prelabels(all))).r()); break; }
                case 0: { doing("intersect_edge_labels"); qs.push_back(Obj().f("q", "isect").f("from", ids(from)).f("to", id.at(to)).f("ls", li).f("res", num(nfa_t::intersect_edge_labels(from, to, ls))).r()); break; }
                case 1: { doing("intersect_edge_labels"); if (from.empty()) from.push_back(st[g.below(st.size())]); qs.push_back(Obj().f("q", "isect").f("from", ids(std::vector{from[0]})).f("to", id.at(to)).f("ls", li).f("res", num(nfa_t::intersect_edge_labels(from[0], to, ls))).r()); break; }
                case 2: { int x = g.below(nl); doing("successor"); qs.push_back(Obj().f("q", "succ").f("from", ids(from)).f("x", x).f("res", ids(nfa_t::successor(from, sym(x)))).r()); break; }
                case 3: { int x = g.below(nl); doing("has_as_successor"); qs.push_back(Obj().f("q", "has").f("from", ids(from)).f("x", x).f("to", id.at(to)).f("res", nfa_t::has_as_successor(from, sym(x), to)).r()); break; }
                default: { auto f = st[g.below(st.size())]; doing("leads_to_by_epsilon"); qs.push_back(Obj().f("q", "eps").f("from", id.at(f)).f("to", id.at(to)).f("res", nfa_t::leads_to_by_epsilon(f, to)).r()); }
            }
        }
        emit(Obj().f("ev", "graph").f("r", r).f("edges", raw{es}).f("init", ids(c.initial())).f("acc", acc).f("q", qs));
    }
    void atom(int r, int kind, bool neg, const std::set<int>& ls) {
        std::unordered_set<T> s; for (int l : ls) s.insert(sym(l));
        if (kind == 0) { doing("NFA()"); reg[r].emplace(true); emit(Obj().f("ev", "op").f("op", "unit").f("r", r)); size[r] = 1; }
        else if (kind == 1) { doing("NFA(false)"); reg[r].emplace(false); emit(Obj().f("ev", "op").f("op", "empty").f("r", r)); size[r] = 1; }
        else { doing("NFA(set)"); reg[r].emplace(std::move(s), neg); emit(Obj().f("ev", "op").f("op", "set").f("r", r).f("neg", neg).f("ls", std::vector<int>(ls.begin(), ls.end()))); size[r] = 2; }
    }
    void unary(int r, int o) {
        static const char* nm[] = {"opt", "star", "plus", "compile", "self"};
        doing(nm[o]);
        switch (o) { case 0: reg[r]->question_extend(); break; case 1: reg[r]->star_extend(); break; case 2: reg[r]->plus_extend(); break; case 3: reg[r]->compile(); break; default: { auto& x = *reg[r]; x = *reg[r]; } }
        emit(Obj().f("ev", "op").f("op", nm[o]).f("r", r));
        size[r]++;
    }
    void binary(int r, int s, int o) {
        static const char* nm[] = {"or", "cat", "copy", "move"};
        doing(nm[o]);
        switch (o) {
            case 0: reg[r]->or_extend(std::move(*reg[s])); size[r] += size[s] + 1; break;
            case 1: reg[r]->concat(std::move(*reg[s])); size[r] += size[s]; break;
            case 2: if (reg[r] && g.chance(60)) *reg[r] = *reg[s]; else reg[r].emplace(*reg[s]); size[r] = size[s]; break;
            default: if (reg[r] && g.chance(60)) *reg[r] = std::move(*reg[s]); else reg[r].emplace(std::move(*reg[s])); size[r] = size[s];
        }
        if (o != 2) reg[s].reset();
        emit(Obj().f("ev", "op").f("op", nm[o]).f("r", r).f("s", s));
    }
    int live() { std::vector<int> v; for (int i = 0; i < 4; ++i) if (reg[i]) v.push_back(i); return v.empty() ? -1 : v[g.below(v.size())]; }
    int other(int r) { std::vector<int> v; for (int i = 0; i < 4; ++i) if (reg[i] && i != r) v.push_back(i); return v.empty() ? -1 : v[g.below(v.size())]; }
    void random_atom(int r) {
        std::set<int> ls; int n = g.range(g.chance(10) ? 0 : 1, nl > 3 ? nl : 2); for (int i = 0; i < n; ++i) ls.insert(g.below(nl));
        atom(r, g.chance(85) ? 2 : g.below(2), g.chance(20), ls);
    }
};

template <typename T> static void history(Rng& g, long id) {
    int nl = g.chance(20) ? g.range(4, 9) : g.range(1, 3), k = nl > 5 ? 2 : nl >= 3 ? 3 : nl == 2 ? 4 : 5;
    bool big = g.chance(15); // long words: only the graphs tell
    if (big) k = 1;
    Sess<T> s(g, nl, k);
    emit(Obj().f("ev", "new").f("case", id).f("nl", nl).f("k", k));
    int steps = big ? g.range(20, 40) : g.range(3, 14);
    for (int i = 0; i < steps; ++i) {
        int r = s.live(), o = r < 0 ? -1 : s.other(r);
        int c = g.below(100);
        if (r < 0 || c < 25 || (o < 0 && c < 55)) { int t = -1; for (int j = 0; j < 4; ++j) if (!s.reg[j]) t = j; r = t < 0 ? r : t; s.random_atom(r); }
        else if (c < 55 && o >= 0) { if (s.size[r] + s.size[o] > 40) continue; s.binary(r, o, g.below(2)); }
        else if (c < 88) s.unary(r, g.chance(12) ? g.range(3, 4) : g.below(3));
        else { int d = g.below(4); if (d == r) continue; s.binary(d, r, g.chance(70) ? 2 : 3); r = s.reg[r] && g.chance(30) ? r : d; }
        if (g.chance(big ? 20 : 50) || i == steps - 1) s.observe(r, big || g.chance(30));
    }
    for (int r = 0; r < 4; ++r) if (s.reg[r]) s.observe(r, g.chance(50));
}

// Exhaustive: every postfix expression with up to 5 (6) symbols over atoms {a}, {b}, not{a}, nothing and the five operators.
struct Enum {
    std::vector<std::string> all;
    Enum(int n) { std::string s; go(s, 0, n); }
    void go(std::string& s, int depth, int n) {
        if (depth == 1 && !s.empty()) all.push_back(s);
        if ((int)s.size() == n) return;
        for (char c : std::string("abn0")) { s.push_back(c); go(s, depth + 1, n); s.pop_back(); }
        if (depth >= 1) for (char c : std::string("?*+")) { s.push_back(c); go(s, depth, n); s.pop_back(); }
        if (depth >= 2) for (char c : std::string("|.")) { s.push_back(c); go(s, depth - 1, n); s.pop_back(); }
    }
};
static void exhaustive(Rng& g, const std::string& e, long id) {
    Sess<char> s(g, 2, 4);
    s.reg.resize(8); s.size.resize(8);
    emit(Obj().f("ev", "new").f("case", id).f("nl", 2).f("k", 4));
    int top = -1;
    for (char c : e) switch (c) {
        case 'a': s.atom(++top, 2, false, {0}); break;
        case 'b': s.atom(++top, 2, false, {1}); break;
        case 'n': s.atom(++top, 2, true, {0}); break;
        case '0': s.atom(++top, 2, false, {}); break;
        case '?': s.unary(top, 0); break;
        case '*': s.unary(top, 1); break;
        case '+': s.unary(top, 2); break;
        case '|': s.binary(top - 1, top, 0); --top; break;
        case '.': s.binary(top - 1, top, 1); --top; break;
    }
    s.observe(0, true);
}

int main(int argc, char** argv) {
    Args a(argc, argv);
    if (a.mode == "x") {
        Enum e(6);
        if (a.hi < 0) { printf("%zu\n", e.all.size()); return 0; }
        // a stride spreads a partial run over the whole family
        size_t n = e.all.size();
        return run_cases(a.lo, a.hi, 20, [&](long i) { Rng g(7 * 1000003ull + i); exhaustive(g, e.all[(size_t)i * 7919 % n], i); });
    }
    return run_cases(a.lo, a.hi, 20, [&](long i) { Rng g(a.seed * 1000003ull + i);
        switch (g.below(8)) { case 0: history<uint32_t>(g, i); break; case 1: history<size_t>(g, i); break; case 2: history<std::string>(g, i); break; default: history<char>(g, i); } });
}
