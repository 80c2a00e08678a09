// Conformance driver for the drawings (DOT) of NFAs, P-automata and products. The drawing is read back statement by statement;
// the automaton is recorded through its public accessors. Modes: nfa, aut.
#include "nfa_util.h"
#include <pdaaal/PDA.h>
#include <pdaaal/PAutomaton.h>
#include <pdaaal/SolverInstance.h>
#include <pdaaal/Solver.h>
#include <set>
#include <map>
#include <sstream>
#include <algorithm>
using namespace pdaaal;
using namespace vf;
static std::string name(int l) { return l < 26 ? std::string(1, (char)('A' + l)) : "L" + std::to_string(l); }

// ---- reading a drawing ----
struct Reader {
    std::string s; size_t i = 0; bool bad = false;
    explicit Reader(std::string t) : s(std::move(t)) {}
    void ws() { while (i < s.size() && isspace((unsigned char)s[i])) ++i; }
    bool eat(const std::string& t) { ws(); if (s.compare(i, t.size(), t) == 0) { i += t.size(); return true; } return false; }
    bool eat0(const std::string& t) { if (s.compare(i, t.size(), t) == 0) { i += t.size(); return true; } return false; }
    bool quoted(std::string& r) {
        if (!eat("\"")) return false;
        r.clear();
        while (i < s.size() && s[i] != '"') r += s[i++];
        return eat0("\"");
    }
};
struct Lab { bool neg = false, star = false, eps = false, ok = true; std::vector<std::pair<std::string,std::string>> syms; std::string epsw; };
static const std::string EPS_TEXT = "\xF0\x9D\x9C\x80";
// A name, and the weight in parentheses behind it (empty if there is none).
static std::pair<std::string,std::string> item(Reader& r) {
    std::string n, w; r.ws();
    while (r.i < r.s.size() && (isalnum((unsigned char)r.s[r.i]) || r.s[r.i] == '_')) n += r.s[r.i++];
    if (r.i < r.s.size() && r.s[r.i] == '(') { ++r.i; while (r.i < r.s.size() && r.s[r.i] != ')') w += r.s[r.i++]; if (!r.eat0(")")) r.bad = true; if (w.empty()) r.bad = true; }
    return {n, w};
}
static Lab read_label(const std::string& t) {
    Lab l; Reader r(t);
    l.neg = r.eat("^");
    if (r.eat("\\[")) {
        do { auto x = item(r); if (x.first.empty()) r.bad = true; l.syms.push_back(x); } while (r.eat(","));
        if (!r.eat("\\]")) r.bad = true;
    } else if (r.eat("*")) l.star = true;
    if (r.eat(EPS_TEXT)) { l.eps = true; auto x = item(r); if (!x.first.empty()) r.bad = true; l.epsw = x.second; }
    r.ws();
    if (r.i != r.s.size()) r.bad = true;
    l.ok = !r.bad;
    return l;
}
// The statements of the drawing; names are mapped to state numbers (-1: unknown name), symbols to label numbers.
static void emit_drawing(const std::string& text, const std::function<int(const std::string&)>& state, const std::function<int(const std::string&)>& sym, Obj& o) {
    Reader r(text); bool ok = r.eat("digraph");
    { r.ws(); while (r.i < r.s.size() && isalnum((unsigned char)r.s[r.i])) ++r.i; }
    ok = ok && r.eat("{");
    std::vector<raw> nodes, edges; std::vector<int> arrows, hidden;
    while (ok && !r.eat("}")) {
        std::string a, b;
        if (!r.quoted(a)) { ok = false; break; }
        bool ini = !a.empty() && a[0] == 'I' && state(a) < 0;
        if (r.eat("->")) {
            if (!r.quoted(b)) { ok = false; break; }
            if (ini) { int s = state(a.substr(1)); if (state(b) != s) ok = false; arrows.push_back(s); }
            else {
                std::string t;
                if (!(r.eat("[") && r.eat("label") && r.eat("=") && r.quoted(t) && r.eat("]"))) { ok = false; break; }
                Lab l = read_label(t); ok = ok && l.ok;
                std::vector<raw> sy; for (auto& [n, w] : l.syms) sy.push_back(raw{"[" + js(sym(n)) + "," + js(w) + "]"});
                edges.push_back(Obj().f("f", state(a)).f("t", state(b)).f("neg", l.neg).f("star", l.star).f("syms", sy).f("eps", l.eps).f("epsw", l.epsw).r());
            }
        } else if (r.eat("[")) {
            if (ini) { if (!(r.eat("style") && r.eat("=") && r.eat("invisible") && r.eat("]"))) { ok = false; break; } hidden.push_back(state(a.substr(1))); }
            else {
                if (!(r.eat("shape") && r.eat("="))) { ok = false; break; }
                bool acc = r.eat0("double");
                if (!(r.eat0("circle") && r.eat("]"))) { ok = false; break; }
                nodes.push_back(raw{"[" + js(state(a)) + "," + js(acc) + "]"});
            }
        } else { ok = false; break; }
        r.eat(";");
    }
    r.ws(); if (r.i != r.s.size()) ok = false;
    o.f("ok", ok).f("nodes", nodes).f("edges", edges).f("arrows", arrows).f("hidden", hidden);
    if (!ok) o.f("text", text);
}

// ---- NFAs ----
template <typename T, typename F> static NFA<T> gen(Rng& g, int nl, int d, F&& sym) {
    int c = g.below(100);
    if (d == 0 || c < 25) {
        if (g.chance(12)) return NFA<T>(g.chance(70));
        bool neg = g.chance(40); int n = neg ? g.range(0, 3) : g.range(1, 4);
        std::unordered_set<T> s; for (int i = 0; i < n; ++i) s.insert(sym(g.below(nl)));
        return NFA<T>(std::move(s), neg);
    }
    auto a = gen<T>(g, nl, d - 1, sym);
    if (c < 75) { auto b = gen<T>(g, nl, d - 1, sym); if (g.chance(50)) a.or_extend(std::move(b)); else a.concat(std::move(b)); }
    else { int o = g.below(3); if (o == 0) a.question_extend(); else if (o == 1) a.star_extend(); else a.plus_extend(); }
    return a;
}
template <typename T, typename F> static void nfa_case(Rng& g, long cid, F&& sym, bool printer) {
    int nl = g.range(1, g.chance(20) ? 30 : 4);
    auto n = gen<T>(g, nl, g.range(0, 4), sym);
    if (g.chance(60)) n.compile();
    std::map<const void*, int> id; std::map<std::string, int> names, syms;
    for (auto& s : n.states()) { int k = (int)id.size(); id[s.get()] = k; }
    for (auto& [p, k] : id) { std::ostringstream t; t << p; names[t.str()] = k; }
    std::map<T, int> num; for (int l = 0; l < nl; ++l) { num[sym(l)] = l; std::ostringstream t; if (printer) t << "x" << sym(l); else t << sym(l); syms[t.str()] = l; }
    std::vector<raw> st, es;
    for (auto& s : n.states()) {
        st.push_back(raw{"[" + js(id[s.get()]) + "," + js((bool)s->_accepting) + "]"});
        for (auto& e : s->_edges) {
            std::vector<raw> sy; for (auto& x : e._symbols) sy.push_back(raw{"[" + js(num.at(x)) + ",\"\"]"});
            es.push_back(Obj().f("f", id[s.get()]).f("t", id.at(e._destination)).f("neg", (bool)e._negated).f("syms", sy).f("eps", (bool)e._epsilon).f("epsw", std::string()).r());
        }
    }
    std::vector<int> in; for (auto* s : n.initial()) in.push_back(id.at(s));
    doing("NFA::to_dot");
    std::ostringstream out;
    if (printer) n.to_dot(out, [](std::ostream& s, const T& e) { s << "x" << e; }); else n.to_dot(out);
    emit(Obj().f("ev", "new").f("case", cid).f("kind", "nfa").f("nl", nl).f("w", false).f("st", st).f("es", es).f("init", in));
    Obj d; d.f("ev", "dot");
    auto find = [](const std::map<std::string,int>& m) { return [&m](const std::string& s) { auto it = m.find(s); return it == m.end() ? -1 : it->second; }; };
    emit_drawing(out.str(), find(names), find(syms), d);
    emit(d);
}

// ---- P-automata ----
static std::string wtext(uint32_t w) { return std::to_string(w); }
static std::string wtext(int32_t w) { return std::to_string(w); }
static std::string wtext(const std::vector<int32_t>& w) { std::string r = "["; for (size_t i = 0; i < w.size(); ++i) r += (i ? "," : "") + std::to_string(w[i]); return r + "]"; }
template <typename W, Trace_Type tt> static typename W::type rand_w(Rng& g) {
    using sw = internal::solver_weight<W, tt>;
    if (g.chance(12)) return sw::max();
    if (tt != Trace_Type::None && g.chance(15)) return sw::bottom();
    if constexpr (W::is_vector) { std::vector<int32_t> v; int n = g.range(0, 3); for (int i = 0; i < n; ++i) v.push_back(g.range(-3, 9)); return v; }
    else return (typename W::type)g.range(W::is_signed ? -4 : 0, 12);
}
// The text a weight has in a drawing: "-" for no run at all, an infinity for an unbounded one, and else the number.
template <typename W, Trace_Type tt> static std::string shown(const typename W::type& w) {
    using sw = internal::solver_weight<W, tt>;
    if (w == sw::max()) return "-";
    if (tt == Trace_Type::Longest && w == sw::bottom()) return "inf";
    if (W::is_signed && (tt == Trace_Type::Shortest || tt == Trace_Type::ShortestFixedPoint) && w == sw::bottom()) return "-inf";
    return wtext(w);
}

template <typename W, Trace_Type tt, bool named> static void aut_case(Rng& g, long cid) {
    using st_t = std::conditional_t<named, std::string, size_t>;
    using pda_t = PDA<std::string, W, fut::type::vector, st_t, !named>;
    using aut_t = PAutomaton<std::string, W, st_t, !named>;
    constexpr bool weighted = W::is_weight;
    bool big = g.chance(10); int np = big ? g.range(5, 14) : g.range(1, 4), nl = big ? g.range(3, 12) : g.range(g.chance(5) ? 0 : 1, 4);
    pda_t pda;
    std::vector<uint32_t> id; for (int l = 0; l < nl; ++l) id.push_back(pda.insert_label(name(l)));
    auto sname = [&](size_t i) -> std::string { return named && (int)i < np ? "s" + std::to_string(i) : std::to_string(i); };
    for (int p = 0; p < np; ++p) { if constexpr (named) pda.insert_state(sname(p)); else pda.insert_state(p); }
    if (nl > 0) for (int i = g.below(7); i > 0; --i) {
        int from = g.below(np), to = g.below(np);
        op_t op = (op_t)(1 << g.below(4));
        std::vector<std::string> pre{name(g.below(nl))};
        auto ol = op == POP || op == NOOP ? std::string() : name(g.below(nl));
        if constexpr (weighted) {
            typename W::type w; if constexpr (W::is_vector) w = {(int)g.below(3), (int)g.below(3)}; else w = g.below(5);
            pda.add_rule((size_t)from, (size_t)to, op, ol, false, pre, w);
        } else pda.add_rule((size_t)from, (size_t)to, op, ol, false, pre);
    }
    auto mk = [&]() {
        std::vector<size_t> acc; for (int p = 0; p < np; ++p) if (g.chance(25)) acc.push_back(p);
        aut_t a(pda, acc, g.chance(80));
        int q = g.range(0, 4), n = np + q;
        for (int i = 0; i < q; ++i) a.add_state(false, g.chance(40));
        for (int i = g.range(0, big ? 50 : 14); i > 0; --i) {
            int f = g.below(n), t = g.chance(40) ? np % n : (int)g.below(n); // several labels on the same edge are wanted
            auto one = [&](uint32_t l) {
                if constexpr (weighted) { auto an = std::make_pair(internal::trace_t(), rand_w<W, tt>(g)); if (l == aut_t::epsilon) a.add_epsilon_edge(f, t, an); else a.add_edge(f, t, l, an); }
                else { if (l == aut_t::epsilon) a.add_epsilon_edge(f, t); else a.add_edge(f, t, l); }
            };
            if (nl == 0 || g.chance(20)) one(aut_t::epsilon);
            else if (g.chance(20)) { for (int l = 0; l < nl; ++l) one(id[l]); if (g.chance(40)) one(aut_t::epsilon); }
            else one(id[g.below(nl)]);
        }
        return a;
    };
    auto record = [&](const auto& a, const std::string& text, bool lname, bool sn, long cid_) {
        std::vector<raw> st, es; std::vector<int> in; for (int p = 0; p < np; ++p) in.push_back(p); // the control states
        std::map<std::string, int> names, syms;
        for (int l = 0; l < nl; ++l) syms[lname ? name(l) : std::to_string(id[l])] = l;
        for (auto& s : a.states()) {
            st.push_back(raw{"[" + js((int)s->_id) + "," + js((bool)s->_accepting) + "]"});
            names[sn ? sname(s->_id) : std::to_string(s->_id)] = (int)s->_id;
            for (auto& [to, labels] : s->_edges) {
                std::vector<raw> sy; bool eps = false; std::string ew;
                for (auto& [lab, anno] : labels) {
                    std::string w;
                    if constexpr (weighted) w = shown<W, tt>(anno.second);
                    if (lab == aut_t::epsilon) { eps = true; ew = w; }
                    else { int k = -1; for (int l = 0; l < nl; ++l) if (id[l] == lab) k = l; sy.push_back(raw{"[" + js(k) + "," + js(w) + "]"}); }
                }
                if (sy.empty() && !eps) continue;
                es.push_back(Obj().f("f", (int)s->_id).f("t", (int)to).f("neg", false).f("syms", sy).f("eps", eps).f("epsw", ew).r());
            }
        }
        emit(Obj().f("ev", "new").f("case", cid_).f("kind", "aut").f("nl", nl).f("w", weighted).f("st", st).f("es", es).f("init", in));
        Obj d; d.f("ev", "dot");
        std::string t; { size_t i = 0; while (i < text.size()) { if (text.compare(i, 3, "\xE2\x88\x9E") == 0) { t += "inf"; i += 3; } else t += text[i++]; } }
        auto find = [](const std::map<std::string,int>& m) { return [&m](const std::string& s) { auto it = m.find(s); return it == m.end() ? -1 : it->second; }; };
        emit_drawing(t, find(names), find(syms), d);
        emit(d);
    };
    aut_t a = mk();
    int how = g.below(4);
    if (how < 3) {
        std::ostringstream out; bool lname = how == 0 || how == 2, sn = how == 2;
        doing("PAutomaton::to_dot");
        auto lp = [&](std::ostream& s, const uint32_t& l) { s << pda.get_symbol(l); };
        auto sp = [&](std::ostream& s, const size_t& i) { s << sname(i); };
        if (sn) a.template to_dot<tt>(out, lp, sp); else if (lname) a.template to_dot<tt>(out, lp); else a.template to_dot<tt>(out);
        record(a, out.str(), lname, sn, cid);
    } else {
        // Drawings of the automata of a product, before or after solving.
        std::vector<size_t> ini{(size_t)g.below(np)};
        std::vector<std::string> stack; for (int i = nl ? g.range(0, 3) : 0; i > 0; --i) stack.push_back(name(g.below(nl)));
        std::vector<std::string> stack2; for (int i = nl ? g.range(0, 2) : 0; i > 0; --i) stack2.push_back(name(g.below(nl)));
        aut_t x(pda, ini[0], stack), y(pda, (size_t)g.below(np), stack2);
        pda_t copy = std::move(pda);
        SolverInstance<std::string, W, st_t, !named> inst(std::move(copy), aut_t(std::move(x), copy), aut_t(std::move(y), copy));
        if (g.chance(75)) {
            doing("post_star");
            if constexpr (weighted && tt == Trace_Type::Shortest) (void)Solver::post_star_accepts<Trace_Type::Shortest>(*inst);
            else (void)Solver::post_star_accepts<Trace_Type::Any>(*inst);
        }
        std::ostringstream o1, o2;
        doing("automaton_to_dot"); inst->template automaton_to_dot<tt>(o1);
        doing("product_automaton_to_dot"); inst->template product_automaton_to_dot<tt>(o2);
        record(inst->automaton(), o1.str(), true, true, cid);
        record(inst->product_automaton(), o2.str(), true, true, cid);
    }
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    return run_cases(a.lo, a.hi, 20, [&](long i) {
        Rng g(a.seed * 1000003ull + i);
        if (a.mode == "nfa") {
            bool pr = g.chance(50);
            if (g.chance(50)) nfa_case<std::string>(g, i, name, pr); else nfa_case<uint32_t>(g, i, [](int l) { return (uint32_t)l; }, pr);
        } else switch (g.below(8)) {
            case 0: aut_case<weight<void>, Trace_Type::None, false>(g, i); break;
            case 1: aut_case<weight<void>, Trace_Type::None, true>(g, i); break;
            case 2: aut_case<weight<uint32_t>, Trace_Type::Shortest, true>(g, i); break;
            case 3: aut_case<weight<uint32_t>, Trace_Type::Longest, false>(g, i); break;
            case 4: aut_case<weight<int32_t>, Trace_Type::Longest, true>(g, i); break;
            case 5: aut_case<weight<int32_t>, Trace_Type::ShortestFixedPoint, false>(g, i); break;
            case 6: aut_case<weight<uint32_t>, Trace_Type::None, false>(g, i); break;
            default: aut_case<weight<std::vector<int32_t>>, Trace_Type::Shortest, true>(g, i); break;
        }
    });
}
