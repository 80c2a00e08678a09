// Conformance driver for the construction of P-automata. -DWTYPE=0 unweighted, 1 uint32 weights on edges.
#include "nfa_util.h"
#include <pdaaal/PDA.h>
#include <pdaaal/PAutomaton.h>
#include <set>
#include <optional>
#include <algorithm>
#ifndef WTYPE
#define WTYPE 0
#endif
using namespace pdaaal;
using namespace vf;
#if WTYPE == 0
using W = weight<void>;
#else
using W = weight<uint32_t>;
#endif
using pda_t = PDA<std::string, W>;
using aut_t = PAutomaton<std::string, W, size_t, true>;
static std::string name(int l) { return std::string(1, (char)('A' + l)); }

// A random regular expression, as a library NFA and as the JSON tree the specification evaluates.
template <typename T, typename F>
static std::pair<NFA<T>, std::string> gen_nfa(Rng& g, int nl, int d, F&& sym) {
    int c = g.below(100);
    if (d == 0 || c < 30) {
        if (g.chance(6)) return {NFA<T>(true), "[\"eps\"]"};
        bool neg = g.chance(35); int n = neg ? g.range(0, 2) : g.range(1, 2);
        std::set<int> ls; for (int i = 0; i < n; ++i) ls.insert(g.below(nl));
        std::unordered_set<T> s; for (int l : ls) s.insert(sym(l));
        return {NFA<T>(std::move(s), neg), "[\"set\"," + js(neg) + "," + js(std::vector<int>(ls.begin(), ls.end())) + "]"};
    }
    auto a = gen_nfa<T>(g, nl, d - 1, sym);
    if (c < 75) {
        auto b = gen_nfa<T>(g, nl, d - 1, sym);
        bool o = g.chance(45);
        if (o) a.first.or_extend(std::move(b.first)); else a.first.concat(std::move(b.first));
        a.second = std::string("[\"") + (o ? "or" : "cat") + "\"," + a.second + "," + b.second + "]";
    } else {
        int o = g.below(3);
        if (o == 0) a.first.question_extend(); else if (o == 1) a.first.star_extend(); else a.first.plus_extend();
        static const char* nm[] = {"opt", "star", "plus"};
        a.second = std::string("[\"") + nm[o] + "\"," + a.second + "]";
    }
    return a;
}

struct Sess {
    Rng& g; bool big; int np, nl, k; pda_t pda; std::vector<std::optional<aut_t>> reg; std::vector<uint32_t> id; std::vector<int> back; std::vector<std::pair<int, std::vector<int>>> tall;
    // big: more states, labels and larger expressions, observed in full only through the graph
    Sess(Rng& g) : g(g), big(g.chance(20)), np(big ? g.range(2, 8) : g.range(1, 4)), nl(big ? g.range(2, 7) : g.range(1, 3)), k(big ? 1 : 3), reg(3), id(nl), back(nl) {
        std::vector<int> ord(nl); for (int i = 0; i < nl; ++i) ord[i] = i;
        for (int i = nl - 1; i > 0; --i) std::swap(ord[i], ord[g.below(i + 1)]); // labels in any order of insertion
        for (int l : ord) { id[l] = pda.insert_label(name(l)); back[id[l]] = l; }
        for (int p = 0; p < np; ++p) pda.insert_state(p);
    }
    std::vector<int> some_states() { std::set<int> s; int n = g.range(g.chance(10) ? 0 : 1, np); for (int i = 0; i < n; ++i) s.insert(g.below(np)); return {s.begin(), s.end()}; }
    template <typename A> void add_w(A& a, int f, int t, int l, int w) {
#if WTYPE == 0
        a.add_edge(f, t, id[l]);
#else
        a.add_edge(f, t, id[l], std::make_pair(internal::trace_t(), (uint32_t)w));
#endif
    }
    void build(int r) {
        int c = g.below(100);
        if (c < 20) {
            int p = g.below(np); std::vector<int> s; int n = g.chance(30) ? g.range(4, 20) : g.below(4); for (int i = 0; i < n; ++i) s.push_back(g.below(nl)); if (n > k) tall.emplace_back(p, s);
            std::vector<std::string> st; for (int l : s) st.push_back(name(l));
            doing("PAutomaton(pda, state, stack)");
            reg[r].emplace(pda, (size_t)p, st);
            emit(Obj().f("ev", "op").f("op", "cfg").f("r", r).f("p", p).f("s", s));
        } else if (c < 60) {
            auto st = some_states(); std::vector<size_t> sts(st.begin(), st.end());
            std::string tree;
            if (g.chance(60)) {
                auto [n, t] = gen_nfa<std::string>(g, nl, big ? g.range(2, 5) : g.range(0, 3), name); n.compile();
                doing("PAutomaton(pda, NFA<label>, states)"); reg[r].emplace(pda, n, sts); tree = t;
            } else {
                auto [n, t] = gen_nfa<uint32_t>(g, nl, big ? g.range(2, 5) : g.range(0, 3), [&](int l) { return id[l]; }); n.compile();
                doing("PAutomaton(pda, NFA<uint32_t>, states)"); reg[r].emplace(pda, n, sts); tree = t;
            }
            emit(Obj().f("ev", "op").f("op", "nfa").f("r", r).f("st", st).f("e", raw{tree}));
        } else if (c < 70) {
            auto st = some_states(); std::vector<size_t> sts(st.begin(), st.end()); bool acc = g.chance(70);
            doing("PAutomaton(pda, states, accepting)"); reg[r].emplace(pda, sts, acc);
            emit(Obj().f("ev", "op").f("op", "special").f("r", r).f("st", st).f("acc", acc));
        } else {
            auto st = some_states(); std::vector<size_t> sts(st.begin(), st.end());
            doing("add_edge"); reg[r].emplace(pda, sts, true);
            int q = g.range(0, 3), n = np + q;
            std::set<int> acc(st.begin(), st.end());
            for (int i = 0; i < q; ++i) { bool a = g.chance(40); if (a) acc.insert(np + i); reg[r]->add_state(false, a); }
            std::map<std::array<int,3>, int> es;
            int ne = g.range(0, 9);
            for (int i = 0; i < ne; ++i) {
                int t = q > 0 && g.chance(90) ? np + g.below(q) : g.below(n);
                std::array<int,3> e{(int)g.below(n), (int)g.below(nl), t};
                auto it = es.emplace(e, g.below(6)).first;
                add_w(*reg[r], e[0], e[2], e[1], it->second);
            }
            std::vector<std::vector<int>> el; for (auto& [e, w] : es) el.push_back({e[0], e[1], e[2], w});
            emit(Obj().f("ev", "op").f("op", "graph").f("r", r).f("n", n).f("acc", std::vector<int>(acc.begin(), acc.end())).f("e", el));
        }
    }
    void observe(int r) {
        const aut_t& a = *reg[r];
        std::vector<std::vector<int>> es; std::vector<int> acc;
        for (auto& s : a.states()) {
            if (s->_accepting) acc.push_back((int)s->_id);
            for (auto& [to, labels] : s->_edges) for (auto& [lab, anno] : labels) {
#if WTYPE == 0
                es.push_back({(int)s->_id, lab < back.size() ? back[lab] : -1, (int)to, 0});
#else
                es.push_back({(int)s->_id, lab < back.size() ? back[lab] : -1, (int)to, (int)anno.second});
#endif
            }
        }
        std::vector<std::pair<int, std::vector<int>>> obs;
        std::vector<raw> paths, spaths, fp, fsp, lng;
        auto num = [](const auto& v) { std::vector<int> x; for (auto e : v) x.push_back((int)e); return x; };
        for (int p = 0; p < np; ++p) for (auto& w : words(nl, k)) {
            std::vector<uint32_t> st; for (int l : w) st.push_back(id[l]);
            doing("accepts"); bool b = a.accepts(p, st);
            if (b) obs.emplace_back(p, w);
            if (b || g.chance(10)) {
                doing("accept_path"); paths.push_back(Obj().f("p", p).f("s", w).f("path", num(a.accept_path(p, st))).r());
#if WTYPE == 1
                doing("accept_path<Shortest>"); auto [sp, sw] = a.template accept_path<Trace_Type::Shortest>(p, st);
                spaths.push_back(Obj().f("p", p).f("s", w).f("path", num(sp)).f("w", sp.empty() ? 0 : (int)sw).r());
#endif
            }
        }
        // Taller stacks: the ones configurations were made from, their neighbours, and walks through the automaton.
        std::vector<std::pair<int, std::vector<int>>> ts;
        for (auto& t : tall) { ts.push_back(t); auto u = t; switch (g.below(5)) { case 0: u.first = g.below(np); break; case 1: u.second[g.below((int)u.second.size())] = g.below(nl); break; case 2: u.second.pop_back(); break; case 3: u.second.push_back(g.below(nl)); break; default: u.second.erase(u.second.begin()); } if ((int)u.second.size() > k) ts.push_back(u); }
        for (int i = 0; i < 3; ++i) {
            int p = g.below(np), q = p; std::vector<int> w; size_t n = g.range(k + 1, 12);
            while (w.size() < n) {
                std::vector<std::pair<int, int>> o; for (auto& [to, labels] : a.states()[q]->_edges) for (auto& [lb, anno] : labels) if (lb < back.size()) o.emplace_back(back[lb], (int)to);
                if (o.empty()) break;
                auto [x, to] = g.pick(o); w.push_back(x); q = to;
            }
            if ((int)w.size() > k) ts.emplace_back(p, w);
        }
        for (auto& [p, w] : ts) {
            std::vector<uint32_t> st; for (int l : w) st.push_back(id[l]);
            doing("accepts"); bool b = a.accepts(p, st); doing("accept_path"); auto pt = num(a.accept_path(p, st)); int sw = 0; std::vector<int> sp;
#if WTYPE == 1
            doing("accept_path<Shortest>"); auto [x, y] = a.template accept_path<Trace_Type::Shortest>(p, st); sp = num(x); sw = x.empty() ? 0 : (int)y;
#endif
            lng.push_back(Obj().f("p", p).f("s", w).f("acc", b).f("path", pt).f("sp", sp).f("w", sw).r());
        }
        auto lab = [&](const std::vector<uint32_t>& v) { std::vector<int> x; for (auto e : v) x.push_back(e < back.size() ? back[e] : -1); return x; };
        { doing("find_path"); auto pth = a.find_path(); if (pth.is_null()) fp.push_back(Obj().f("path", std::vector<int>()).f("s", std::vector<int>()).r()); else { auto [p, s] = pth.get_path_and_stack(); fp.push_back(Obj().f("path", num(p)).f("s", lab(s)).r()); } }
#if WTYPE == 1
        { doing("find_path_shortest"); auto [pth, w] = a.find_path_shortest(); if (pth.is_null()) fsp.push_back(Obj().f("path", std::vector<int>()).f("s", std::vector<int>()).f("w", 0).r()); else { auto [p, s] = pth.get_path_and_stack(); fsp.push_back(Obj().f("path", num(p)).f("s", lab(s)).f("w", (int)w).r()); } }
#endif
        emit(Obj().f("ev", "obs").f("r", r).f("n", (int)a.states().size()).f("acc", acc).f("has", a.has_accepting_state()).f("e", es).f("obs", obs).f("paths", paths).f("spaths", spaths).f("wt", WTYPE == 1).f("long", lng).f("fp", fp).f("fsp", fsp));
    }
};
static void history(Rng& g, long cid) {
    Sess s(g);
    emit(Obj().f("ev", "new").f("case", cid).f("np", s.np).f("nl", s.nl).f("k", s.k));
    int steps = g.range(1, 6);
    for (int i = 0; i < steps; ++i) {
        std::vector<int> live; for (int r = 0; r < 3; ++r) if (s.reg[r]) live.push_back(r);
        int c = g.below(100), r;
        if (live.empty() || c < 45) { r = g.below(3); s.build(r); }
        else if (c < 70 && live.size() > 1) {
            r = g.pick(live); int o; do o = g.pick(live); while (o == r);
            if (s.reg[r]->states().size() > (s.big ? 40 : 14)) continue;
            // The union shares the control states, so it needs automata without edges into control states (as every constructor makes them).
            auto into = [&](const aut_t& a) { for (auto& st : a.states()) for (auto& [to, labels] : st->_edges) if ((int)to < s.np) return true; return false; };
            if (into(*s.reg[r]) || into(*s.reg[o])) continue;
            doing("or_extend"); aut_t tmp(*s.reg[o]); s.reg[r]->or_extend(std::move(tmp));
            emit(Obj().f("ev", "op").f("op", "or").f("r", r).f("s", o));
        } else if (c < 78) {
            int o = g.pick(live); r = g.below(3); if (r == o) continue;
            doing("copy"); s.reg[r].emplace(*s.reg[o]);
            emit(Obj().f("ev", "op").f("op", "copy").f("r", r).f("s", o));
        } else if (c < 92) {
            r = g.pick(live); int n = (int)s.reg[r]->states().size();
            s.observe(r);
            std::set<int> fs; int m = g.range(1, 2); for (int j = 0; j < m; ++j) fs.insert(g.below(n));
            int t = g.below(n); bool neg = g.chance(40);
            std::set<int> ls; m = g.range(0, 2); for (int j = 0; j < m; ++j) ls.insert(g.below(s.nl));
            // only labels that the automaton does not have between these states already (their weight is kept)
            bool clash = false;
            for (int f : fs) for (auto& [to, labels] : s.reg[r]->states()[f]->_edges) if ((int)to == t) clash = true;
            if (clash) continue;
            std::vector<uint32_t> ids; for (int l : ls) ids.push_back(s.id[l]); std::sort(ids.begin(), ids.end());
            std::vector<size_t> from(fs.begin(), fs.end());
            doing("add_edges");
            if (from.size() == 1) s.reg[r]->add_edges(from[0], t, neg, ids); else s.reg[r]->add_edges(from, t, neg, ids);
            emit(Obj().f("ev", "op").f("op", "edges").f("r", r).f("f", std::vector<int>(fs.begin(), fs.end())).f("t", t).f("neg", neg).f("ls", std::vector<int>(ls.begin(), ls.end())));
        } else {
            r = g.pick(live); int q = g.below((int)s.reg[r]->states().size());
            s.observe(r);
            doing("set_state_accepting"); s.reg[r]->set_state_accepting(q);
            emit(Obj().f("ev", "op").f("op", "accept").f("r", r).f("q", q));
        }
        s.observe(r);
    }
    for (int r = 0; r < 3; ++r) if (s.reg[r] && g.chance(50)) s.observe(r);
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    return run_cases(a.lo, a.hi, 20, [&](long i) { Rng g(a.seed * 1000003ull + i); history(g, i); });
}
