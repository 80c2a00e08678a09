// Random / exhaustive pushdown verification instances, independent of the library's own types.
#ifndef VERIF_INSTANCE_H
#define VERIF_INSTANCE_H
#include "common.h"
#include <set>
#include <algorithm>

namespace vf {
    enum Op { PUSH_ = 1, POP_ = 2, SWAP_ = 4, NOOP_ = 8 };
    inline const char* opname(int op) { return op == PUSH_ ? "push" : op == POP_ ? "pop" : op == SWAP_ ? "swap" : "noop"; }

    struct Rule { int from; bool wild; std::vector<int> pre; int op; int opl; int to; std::vector<int> w; };
    struct Aut { // P-automaton over states 0..np-1 (initial, the PDA's) and np..n-1
        int n = 0; std::set<int> acc; std::set<std::array<int,3>> e;
    };
    struct Inst {
        int np, nl;
        std::vector<Rule> rules;
        Aut I, F;
    };
    struct GenOpt { int wlo = 0, whi = 5, wdim = 1; bool single_cfg = false; int maxp = 4, maxl = 3, maxr = 9, maxq = 3; };

    inline int enc_w(const std::vector<int>& w) { int r = 0; for (int x : w) r = r * 1000 + x; return r; }

    inline Aut gen_aut(Rng& g, int np, int nl, const GenOpt& o) {
        Aut a;
        int style = g.below(10);
        if (style < 4) { // one configuration, or a few with the same state: the commonest use
            int p = g.below(np); int len = g.range(style == 0 ? 0 : 1, 3);
            a.n = np + len;
            int last = p;
            for (int i = 0; i < len; ++i) { a.e.insert({last, (int)g.below(nl), np + i}); last = np + i; }
            a.acc.insert(last);
        } else {
            int q = g.range(1, o.maxq);
            a.n = np + q;
            int ne = g.range(1, 2 + 2 * q);
            for (int i = 0; i < ne; ++i) {
                int f = g.chance(50) ? g.below(np) : g.below(a.n);
                int t = np + g.below(q);
                if (g.chance(25)) { for (int l = 0; l < nl; ++l) a.e.insert({f, l, t}); }
                else a.e.insert({f, (int)g.below(nl), t});
            }
            a.acc.insert(np + g.below(q));
            if (g.chance(30)) a.acc.insert(np + g.below(q));
            if (g.chance(20)) a.acc.insert(g.below(np));
            if (g.chance(4)) a.acc.clear();
        }
        return a;
    }

    // ---- plain simulation, used only to choose which instances are worth validating ----
    using Cfg = std::pair<size_t,std::vector<int>>;
    inline bool sim_accepts(const Aut& a, const Cfg& c) {
        std::set<int> s{(int)c.first};
        for (int l : c.second) { std::set<int> n; for (auto& e : a.e) if (e[1] == l && s.count(e[0])) n.insert(e[2]); s.swap(n); }
        for (int q : s) if (a.acc.count(q)) return true;
        return false;
    }
    inline std::vector<const Rule*> sim_step(const Inst& x, const Cfg& c, const Cfg& d) {
        std::vector<const Rule*> res;
        if (c.second.empty()) return res;
        for (auto& r : x.rules) {
            if (r.from != (int)c.first || r.to != (int)d.first) continue;
            int top = c.second[0];
            if (!r.wild && std::find(r.pre.begin(), r.pre.end(), top) == r.pre.end()) continue;
            std::vector<int> st(c.second.begin() + 1, c.second.end());
            if (r.op == NOOP_) st.insert(st.begin(), top);
            else if (r.op == SWAP_) st.insert(st.begin(), r.opl);
            else if (r.op == PUSH_) { st.insert(st.begin(), top); st.insert(st.begin(), r.opl); }
            if (st == d.second) res.push_back(&r);
        }
        return res;
    }
    // 0: not a run; otherwise 1 + its length.  lo/hi: least and greatest total weight (first component).
    inline size_t sim_run(const Inst& x, const std::vector<Cfg>& t) {
        if (t.empty() || !sim_accepts(x.I, t.front()) || !sim_accepts(x.F, t.back())) return 0;
        for (size_t i = 0; i + 1 < t.size(); ++i) if (sim_step(x, t[i], t[i + 1]).empty()) return 0;
        return t.size();
    }

    inline std::vector<int> gen_w(Rng& g, const GenOpt& o) {
        std::vector<int> w;
        for (int i = 0; i < o.wdim; ++i) w.push_back(g.chance(25) ? (o.wlo <= 0 ? 0 : o.wlo) : g.range(o.wlo, o.whi));
        return w;
    }

    inline Inst gen_inst(Rng& g, GenOpt o) {
        Inst x;
        if (g.chance(30)) o.whi = o.whi * 4;
        else if (g.chance(20)) o.whi = 1;
        x.np = g.range(1, o.maxp);
        x.nl = g.range(1, o.maxl);
        int nr = g.range(0, 3) == 0 ? g.range(0, 3) : g.range(2, o.maxr);
        int bias = g.below(4);
        for (int i = 0; i < nr; ++i) {
            Rule r;
            r.from = g.below(x.np); r.to = g.below(x.np);
            r.wild = g.chance(15);
            if (!r.wild) {
                int k = g.chance(75) ? 1 : g.range(1, x.nl);
                std::set<int> s; for (int j = 0; j < k; ++j) s.insert(g.below(x.nl));
                r.pre.assign(s.begin(), s.end());
            }
            int o4 = g.below(10);
            if (bias == 1 && g.chance(40)) o4 = 0;
            if (bias == 2 && g.chance(40)) o4 = 4;
            r.op = o4 < 3 ? PUSH_ : o4 < 6 ? POP_ : o4 < 9 ? SWAP_ : NOOP_;
            r.opl = g.below(x.nl);
            r.w = gen_w(g, o);
            x.rules.push_back(r);
        }
        x.I = gen_aut(g, x.np, x.nl, o);
        x.F = gen_aut(g, x.np, x.nl, o);
        return x;
    }

    // The same system inside a larger numbering: unused states and labels around the used ones.
    inline Inst scatter(Rng& g, const Inst& x, int maxp, int maxl) {
        Inst y = x;
        y.np = x.np + g.range(0, std::max(0, maxp - x.np)); y.nl = x.nl + g.range(0, std::max(0, maxl - x.nl));
        auto inj = [&](int n, int m) { std::vector<int> v(m); for (int i = 0; i < m; ++i) v[i] = i; for (int i = m - 1; i > 0; --i) std::swap(v[i], v[g.below(i + 1)]); v.resize(n); if (g.chance(50) && n > 0) v[0] = std::find(v.begin(), v.end(), m - 1) == v.end() ? m - 1 : v[0]; return v; };
        auto ps = inj(x.np, y.np); auto ls = inj(x.nl, y.nl);
        for (auto& r : y.rules) { r.from = ps[r.from]; r.to = ps[r.to]; r.opl = ls[r.opl]; for (auto& l : r.pre) l = ls[l]; std::sort(r.pre.begin(), r.pre.end()); }
        auto aut = [&](const Aut& a) { Aut b; b.n = y.np + (a.n - x.np); auto q = [&](int s) { return s < x.np ? ps[s] : s - x.np + y.np; };
            for (int s : a.acc) b.acc.insert(q(s)); for (auto& e : a.e) b.e.insert({q(e[0]), ls[e[1]], q(e[2])}); return b; };
        y.I = aut(x.I); y.F = aut(x.F);
        return y;
    }
    // Long runs: a line of control states with a tall initial stack and a few rules that stray from it.
    inline Inst gen_line(Rng& g, const GenOpt& o, int maxp) {
        Inst x; x.np = g.range(8, maxp); x.nl = g.range(1, o.maxl);
        std::vector<int> st; int h = g.range(1, maxp / 2); for (int i = 0; i < h; ++i) st.push_back(g.below(x.nl));
        auto chain = [&](int p, const std::vector<int>& s) { Aut a; a.n = x.np + s.size(); int last = p; for (size_t i = 0; i < s.size(); ++i) { a.e.insert({last, s[i], x.np + (int)i}); last = x.np + i; } a.acc.insert(last); return a; };
        std::vector<int> order(x.np); for (int i = 0; i < x.np; ++i) order[i] = i;
        if (g.chance(50)) for (int i = x.np - 1; i > 0; --i) std::swap(order[i], order[g.below(i + 1)]);
        x.I = chain(order[0], st);
        auto rule = [&](int f, int t, int top) { Rule r; r.from = f; r.to = t; r.wild = g.chance(5); if (!r.wild) r.pre = {top};
            int k = g.below(20); r.op = k < 7 ? PUSH_ : k < 13 ? POP_ : k < 18 ? SWAP_ : NOOP_; r.opl = g.below(x.nl); r.w = gen_w(g, o); return r; };
        size_t stop = g.chance(80) ? x.np : g.range(2, x.np);
        for (size_t i = 0; i + 1 < stop && !st.empty(); ++i) {
            Rule r = rule(order[i], order[i + 1], st[0]);
            if (st.size() == 1 && r.op == POP_ && i + 2 < stop) r.op = PUSH_;
            if (r.op == POP_) st.erase(st.begin()); else if (r.op == SWAP_) st[0] = r.opl; else if (r.op == PUSH_) st.insert(st.begin(), r.opl);
            x.rules.push_back(r);
        }
        int extra = g.below(8); for (int i = 0; i < extra; ++i) x.rules.push_back(rule(g.below(x.np), g.below(x.np), g.below(x.nl)));
        if (g.chance(60)) x.F = chain(order[g.chance(80) ? stop - 1 : g.below(x.np)], st); else x.F = gen_aut(g, x.np, x.nl, o);
        return x;
    }

    // Exhaustive family: 2 states, 2 labels; every set of two or three rules (index-coded), fixed simple automata.
    inline Rule small_rule(int code) { // 0..47
        Rule r; r.wild = false; r.from = code & 1; r.pre = {(code >> 1) & 1}; int rest = code >> 2; // 0..11
        r.to = rest & 1; int k = rest >> 1; // 0..5: pop, noop, swap0, swap1, push0, push1
        r.op = k == 0 ? POP_ : k == 1 ? NOOP_ : k < 4 ? SWAP_ : PUSH_;
        r.opl = k < 2 ? 0 : (k & 1);
        r.w = {1};
        return r;
    }

    inline std::string aut_json(const Aut& a) {
        Obj o;
        std::vector<std::vector<int>> e; for (auto& x : a.e) e.push_back({x[0], x[1], x[2]});
        o.f("n", a.n).f("acc", std::vector<int>(a.acc.begin(), a.acc.end())).f("e", e);
        return o.str();
    }
    inline std::string inst_json(const Inst& x, long id, const std::vector<std::string>& want = {}) {
        std::string rs = "[";
        bool first = true;
        for (const auto& r : x.rules) {
            std::vector<int> pre = r.pre;
            if (r.wild) { pre.clear(); for (int l = 0; l < x.nl; ++l) pre.push_back(l); }
            for (int l : pre) {
                if (!first) rs += ",";
                first = false;
                Obj o;
                o.f("from", r.from).f("pre", l).f("op", opname(r.op)).f("opl", r.opl).f("to", r.to).f("w", enc_w(r.w));
                rs += o.str();
            }
        }
        rs += "]";
        Obj o;
        o.f("ev", "load").f("case", id).f("np", x.np).f("nl", x.nl).f("rules", raw{rs}).f("I", raw{aut_json(x.I)}).f("F", raw{aut_json(x.F)}).f("want", want);
        return o.str();
    }
    inline std::string label_name(int l) { return std::string(1, (char)('A' + l)); }
}
#endif
