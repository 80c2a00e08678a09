// Conformance driver for factories and abstraction refinement.
//   solve: the abstraction-refinement loop on random instances and abstractions
//   part:  histories of the partition (AbstractionMapping, RefinementMapping, AbstractionPDA) and refinement construction
//   fact:  factories that explore states on demand
#include "common.h"
#include "instance.h"
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <pdaaal/PDAFactory.h>
#include <pdaaal/Solver.h>
#include <pdaaal/cegar/CegarPdaFactory.h>
using namespace pdaaal;
using namespace vf;
using str = std::string;
static str name(int l) { return str(1, (char)('A' + l)); }
static int num(const str& s) { return s[0] - 'A'; }
static op_t opt(int o) { return o == PUSH_ ? PUSH : o == POP_ ? POP : o == SWAP_ ? SWAP : NOOP; }

// ---- regular stack languages: an expression, its position automaton, and the library's NFA for it ----
struct Re { char k; std::vector<int> ls; bool neg = false; std::vector<Re> c; };
static Re gen_re(Rng& g, int nl, int d) {
    Re r;
    int x = g.below(10);
    if (d == 0 || x < 3) { r.k = 'l'; r.neg = g.chance(25); int n = r.neg ? g.range(0, nl - 1) : g.chance(60) ? 1 : g.range(1, nl); std::set<int> s; while ((int)s.size() < n) s.insert(g.below(nl)); r.ls.assign(s.begin(), s.end()); return r; }
    if (x < 8) { r.k = x < 7 ? '.' : '|'; r.c = {gen_re(g, nl, d - 1), gen_re(g, nl, d - 1)}; return r; }
    r.k = x == 8 ? '*' : g.chance(50) ? '?' : '+'; r.c = {gen_re(g, nl, d - 1)}; return r;
}
struct Pos { bool null = false; std::set<int> first, last; };
struct Glu { std::vector<std::set<int>> lab; std::set<std::pair<int,int>> follow; Pos top; };
static Pos glu(const Re& r, Glu& G, int nl) {
    Pos p;
    switch (r.k) {
        case 'l': { std::set<int> s(r.ls.begin(), r.ls.end()), t; for (int i = 0; i < nl; ++i) if ((s.count(i) != 0) != r.neg) t.insert(i); int i = (int)G.lab.size(); G.lab.push_back(t); p.first = p.last = {i}; break; }
        case '.': { Pos a = glu(r.c[0], G, nl), b = glu(r.c[1], G, nl); for (int x : a.last) for (int y : b.first) G.follow.insert({x, y}); p.null = a.null && b.null; p.first = a.first; if (a.null) p.first.insert(b.first.begin(), b.first.end()); p.last = b.last; if (b.null) p.last.insert(a.last.begin(), a.last.end()); break; }
        case '|': { Pos a = glu(r.c[0], G, nl), b = glu(r.c[1], G, nl); p.null = a.null || b.null; p.first = a.first; p.first.insert(b.first.begin(), b.first.end()); p.last = a.last; p.last.insert(b.last.begin(), b.last.end()); break; }
        default: { p = glu(r.c[0], G, nl); if (r.k != '?') for (int x : p.last) for (int y : p.first) G.follow.insert({x, y}); if (r.k != '+') p.null = true; }
    }
    return p;
}
template <typename T, typename F> static NFA<T> nfa_of(const Re& r, F&& sym) {
    if (r.k == 'l') { std::unordered_set<T> s; for (int x : r.ls) s.insert(sym(x)); return NFA<T>(std::move(s), r.neg); }
    NFA<T> a = nfa_of<T>(r.c[0], sym);
    switch (r.k) { case '.': a.concat(nfa_of<T>(r.c[1], sym)); break; case '|': a.or_extend(nfa_of<T>(r.c[1], sym)); break; case '*': a.star_extend(); break; case '+': a.plus_extend(); break; case '?': a.question_extend(); break; }
    return a;
}
static Aut aut_of(const Re& r, int np, int nl, const std::set<int>& states) {
    Glu G; Pos p = glu(r, G, nl);
    Aut a; a.n = np + (int)G.lab.size();
    for (int s : states) { for (int f : p.first) for (int x : G.lab[f]) a.e.insert({s, x, np + f}); if (p.null) a.acc.insert(s); }
    for (auto& [x, y] : G.follow) for (int z : G.lab[y]) a.e.insert({np + x, z, np + y});
    for (int x : p.last) a.acc.insert(np + x);
    return a;
}
static std::set<int> some_states(Rng& g, int np) { std::set<int> s{(int)g.below(np)}; while (g.chance(30)) s.insert(g.below(np)); return s; }

// ---------------------------------- C14 ----------------------------------
struct CRule { int from, to; op_t op; int opl; bool wild; int pre; }; // concrete rules
struct Config { CRule r; Header<str> h; str pre; };
struct CTrace { std::vector<std::pair<int, std::vector<str>>> cfg; };
static bool best = true;
class Recon;
class Fact : public CegarPdaFactory<str> {
    friend class Recon;
public:
    using label_t = str;
    Fact(const std::unordered_set<str>& all, std::function<int(const str&)> lf, std::function<int(const size_t&)> sf, std::vector<CRule> rs, std::vector<CRule> ph, int np, std::set<int> in, std::set<int> ac)
    : CegarPdaFactory<str>(all, std::move(lf)), rules(std::move(rs)), phantom(std::move(ph)), in(in), ac(ac) {
        AbstractionMapping<size_t, int> b(std::move(sf));
        for (int i = 0; i < np; ++i) b.insert(i);
        sa = RefinementMapping<size_t>(std::move(b));
    }
    template <typename R> void refine(R&& r) { if constexpr (!std::is_same_v<std::decay_t<R>, HeaderRefinement<str>>) {
        if (r.index() == 0) sa.refine(std::get<0>(r).first);
        else { // An abstract rule that no concrete rule is behind: the abstraction drops it.
            auto& a = std::get<1>(r); size_t n = phantom.size();
            phantom.erase(std::remove_if(phantom.begin(), phantom.end(), [&](const CRule& c) { auto u = abst(c); return u._from == a._from && u._to == a._to && u._op == a._op && (u._op == POP || u._op == NOOP || u._op_label == a._op_label) && u._pre == a._pre; }), phantom.end());
            if (phantom.size() == n) throw std::logic_error("the refinement names no rule of the abstraction");
        }
    } }
    int rounds = 0;
protected:
    void build_pda() override {
        ++rounds;
        auto abs = [&](const std::set<int>& s) { std::set<size_t> r; for (int x : s) r.insert(sa.exists(x).second); return std::vector<size_t>(r.begin(), r.end()); };
        ai = abs(in); aa = abs(ac);
        for (auto& r : rules) if (r.wild) this->add_wildcard_rule(abst(r)); else this->add_rule(abst(r));
        for (auto& r : phantom) this->add_rule(abst(r));
    }
    abstract_rule_t abst(const CRule& r) const {
        abstract_rule_t u; u._from = sa.exists(r.from).second; u._to = sa.exists(r.to).second; u._op = r.op;
        u._op_label = r.op == PUSH || r.op == SWAP ? this->abstract_label(name(r.opl)).second : std::numeric_limits<uint32_t>::max();
        if (!r.wild) u._pre = this->abstract_label(name(r.pre)).second;
        return u;
    }
    const std::vector<size_t>& initial() override { return ai; }
    const std::vector<size_t>& accepting() override { return aa; }
    std::vector<CRule> rules, phantom; std::set<int> in, ac; std::vector<size_t> ai, aa; RefinementMapping<size_t> sa;
};
using RBase = CegarPdaReconstruction<str, size_t, const std::vector<Config>&, CTrace>;
class Recon : public RBase {
public:
    using label_t = str; using concrete_trace_t = CTrace;
    using refinement_t = RBase::refinement_t; using header_refinement_t = RBase::header_refinement_t;
    Recon(const Fact& f, const product_t& i, const NFA<str>& a, const NFA<str>& b) : RBase(i, a, b), f(f) {}
protected:
    bool match(const CRule& r, const abstract_rule_t& a) const { return r.op == a._op && f.sa.maps_to(r.from, a._from) && f.sa.maps_to(r.to, a._to) && (r.wild || label_maps_to(name(r.pre), a._pre)) && (r.op == POP || r.op == NOOP || label_maps_to(name(r.opl), a._op_label)); }
    const std::vector<Config>& step(const abstract_rule_t& a, const std::set<int>& from, const Header<str>& h) {
        tmp.emplace_back();
        for (auto& r : f.rules) if (from.count(r.from) && match(r, a)) {
            Config c{r, {}, ""};
            if (r.wild) {
                // The abstract trace says which class the top of the stack is in.
                if (h.top_is_concrete() && !label_maps_to(h.concrete_part.back(), a._pre)) continue;
                std::vector<str> post; if (r.op == PUSH || r.op == SWAP) post.push_back(name(r.opl));
                size_t pops = r.op == POP || r.op == SWAP ? 1 : 0;
                auto [nh, pre] = update_header_wildcard_pre(h, post, pops);
                c.h = nh; if (pops) c.pre = h.top_is_concrete() ? h.concrete_part.back() : pre.at(0);
            } else {
                std::vector<str> post; str p = name(r.pre); if (r.op == NOOP) post = {p}; else if (r.op == SWAP) post = {name(r.opl)}; else if (r.op == PUSH) post = {p, name(r.opl)};
                auto nh = update_header(h, p, post); if (!nh) continue;
                c.h = nh->first; c.pre = p;
            }
            tmp.back().push_back(c);
        }
        return tmp.back();
    }
    const std::vector<Config>& initial_concrete_rules(const abstract_rule_t& a) override { return step(a, f.in, initial_header()); }
    const std::vector<Config>& search_concrete_rules(const abstract_rule_t& a, const Config& c) override { return step(a, {c.r.to}, c.h); }
    refinement_t refinement(const abstract_rule_t& a, std::vector<std::pair<size_t, str>>&& X) {
        std::set<std::pair<size_t, str>> Y; std::set<size_t> YW;
        for (auto& r : f.rules) if (match(r, a)) { if (r.wild) YW.insert(r.from); else Y.insert({r.from, name(r.pre)}); }
        std::vector<std::pair<size_t, str>> y; for (auto& p : Y) if (!YW.count(p.first)) y.push_back(p);
        std::vector<size_t> yw(YW.begin(), YW.end());
        if (Y.empty() && YW.empty()) return a; // nothing concrete behind the rule
        if (best) return make_refinement<refinement_option_t::best_refinement>(std::move(X), std::move(y), a._from, a._pre, std::move(yw));
        return make_refinement<refinement_option_t::fast_refinement>(std::move(X), std::move(y), a._from, a._pre, std::move(yw));
    }
    refinement_t find_initial_refinement(const abstract_rule_t& a) override {
        std::vector<std::pair<size_t, str>> X;
        for (int s : f.in) if (f.sa.maps_to(s, a._from)) for (auto& x : pre_labels(initial_header())) if (label_maps_to(x, a._pre)) X.emplace_back(s, x);
        return refinement(a, std::move(X));
    }
    refinement_t find_refinement(const abstract_rule_t& a, const std::vector<Config>& cs) override {
        std::vector<std::pair<size_t, str>> X;
        for (auto& c : cs) if (f.sa.maps_to(c.r.to, a._from)) for (auto& x : pre_labels(c.h)) if (label_maps_to(x, a._pre)) X.emplace_back(c.r.to, x);
        return refinement(a, std::move(X));
    }
    header_t get_header(const Config& c) override { return c.h; }
    CTrace get_concrete_trace(std::vector<Config>&& cs, std::vector<str>&& h, size_t abs) override {
        CTrace t;
        auto put = [&](int s) { t.cfg.emplace_back(s, std::vector<str>(h.rbegin(), h.rend())); };
        for (auto it = cs.rbegin(); it != cs.rend(); ++it) {
            put(it->r.to);
            switch (it->r.op) { case POP: h.push_back(it->pre); break; case NOOP: break; case SWAP: if (h.empty()) throw std::logic_error("stack"); h.back() = it->pre; break; case PUSH: if (h.empty()) throw std::logic_error("stack"); h.pop_back(); break; }
        }
        int s = -1; if (cs.empty()) { for (int x : f.in) if (f.sa.maps_to(x, abs)) { s = x; break; } } else s = cs[0].r.from;
        put(s);
        std::reverse(t.cfg.begin(), t.cfg.end());
        return t;
    }
    const Fact& f; std::deque<std::vector<Config>> tmp;
};
static void solve(long c, Rng& g) {
    GenOpt o; o.maxp = 5; o.maxl = 5; o.maxr = 12;
    Inst x = gen_inst(g, o);
    auto in = some_states(g, x.np), ac = some_states(g, x.np);
    Re ri = gen_re(g, x.nl, 2), rf = gen_re(g, x.nl, 2);
    x.I = aut_of(ri, x.np, x.nl, in); x.F = aut_of(rf, x.np, x.nl, ac);
    emit(inst_json(x, c));
    std::vector<CRule> rs; for (auto& r : x.rules) { if (r.wild) rs.push_back({r.from, r.to, opt(r.op), r.opl, true, -1}); else for (int p : r.pre) rs.push_back({r.from, r.to, opt(r.op), r.opl, false, p}); }
    std::unordered_set<str> all; for (int i = 0; i < x.nl; ++i) all.insert(name(i));
    int lk = g.range(1, g.chance(50) ? std::min(2, x.nl) : x.nl), sk = g.range(1, g.chance(50) ? std::min(2, x.np) : x.np);
    std::map<str, int> lm; std::map<size_t, int> sm; for (int i = 0; i < x.nl; ++i) lm[name(i)] = g.below(lk);
    for (int i = 0; i < x.np; ++i) sm[i] = g.below(sk) * 2 + (int)ac.count(i);
    best = g.chance(60);
    // The abstraction may have rules that no concrete rule is behind (an over-approximation): the refinement then names that rule.
    std::vector<CRule> ph; if (g.chance(50)) for (int i = g.range(1, 5); i > 0; --i) { CRule r{(int)g.below(x.np), (int)g.below(x.np), g.chance(40) ? POP : g.chance(40) ? SWAP : g.chance(50) ? PUSH : NOOP, -1, false, (int)g.below(x.nl)}; if (r.op == PUSH || r.op == SWAP) r.opl = g.below(x.nl); ph.push_back(r); }
    for (int e = 0; e < 3; ++e) {
        static const char* en[] = {"cegar-post", "cegar-pre", "cegar-dual"}; doing(en[e]);
        auto ni = nfa_of<str>(ri, name), nf = nfa_of<str>(rf, name); ni.compile(); nf.compile();
        Fact f(all, [lm](const str& s) { return lm.at(s); }, [sm](const size_t& s) { return sm.at(s); }, rs, ph, x.np, in, ac);
        CEGAR<Fact, Recon> C; std::optional<CTrace> t;
        if (e == 0) t = C.cegar_solve<false, false>(std::move(f), ni, nf); else if (e == 1) t = C.cegar_solve<true, false>(std::move(f), ni, nf); else t = C.cegar_solve<false, true>(std::move(f), ni, nf);
        emit(Obj().f("ev", "verdict").f("e", en[e]).f("res", t.has_value()));
        if (t) { std::vector<raw> cs; for (auto& [s, st] : t->cfg) { std::vector<int> v; for (auto& y : st) v.push_back(y.empty() ? -1 : num(y)); cs.push_back(raw{"[" + js(s) + "," + js(v) + "]"}); } emit(Obj().f("ev", "trace").f("e", en[e]).f("cfg", cs)); }
    }
}

// ---------------------------------- C13 ----------------------------------
template <typename T> struct Key;
template <> struct Key<str> { static str mk(int i) { return str(1 + i % 3, (char)('a' + i)); } static int un(const str& s) { return s.empty() ? -1 : s[0] - 'a'; } };
template <> struct Key<size_t> { static size_t mk(int i) { return (size_t)i * 300 + 7; } static int un(size_t s) { return (int)((s - 7) / 300); } };
template <typename V> static std::vector<int> unk(const V& v) { std::vector<int> r; for (const auto& x : v) r.push_back(Key<std::decay_t<decltype(x)>>::un(x)); return r; }
template <typename T, typename M> static void rdump(const M& m, int nk) {
    doing("get_concrete_values");
    std::vector<raw> cl; std::vector<int> cls;
    for (int i = 0; i < nk; ++i) { auto [f, id] = m.exists(Key<T>::mk(i)); cls.push_back(f ? (int)id : -1); }
    for (size_t i = 0; i <= m.size(); ++i) { auto a = unk(m.get_concrete_values(i)); std::vector<int> b; for (auto&& x : m.get_concrete_values_range(i)) b.push_back(Key<T>::un(x)); cl.push_back(Obj().f("list", a).f("range", b).r()); }
    emit(Obj().f("ev", "classes").f("of", cls).f("members", cl).f("size", (long)m.size()));
}
template <typename T> static Refinement<T> gen_ref(Rng& g, const std::vector<int>& members, int id, std::vector<std::vector<int>>& parts) {
    Refinement<T> r(id); std::vector<int> m = members; for (size_t i = m.size(); i > 1; --i) std::swap(m[i - 1], m[g.below(i)]);
    int used = g.range(1, (int)m.size()), k = g.range(1, std::min(used, 4)); if (g.chance(8)) k = 0;
    parts.assign(k, {}); for (int i = 0; i < used && k; ++i) parts[i < k ? i : g.below(k)].push_back(m[i]);
    for (auto& p : parts) { std::sort(p.begin(), p.end()); std::vector<T> v; for (int x : p) v.push_back(Key<T>::mk(x)); std::sort(v.begin(), v.end()); r.partitions().push_back(v); }
    return r;
}
template <typename T> static void mapping(long c, Rng& g) {
    bool big = g.chance(12); int nk = big ? g.range(8, 22) : g.range(1, 9), na = g.range(1, big ? 7 : 4); std::vector<int> fn; for (int i = 0; i < nk; ++i) fn.push_back((int)g.below(na) * 3 + 1);
    emit(Obj().f("ev", "new").f("case", c).f("fn", fn));
    AbstractionMapping<T, int> m(std::function<int(const T&)>([fn](const T& k) { return fn.at(Key<T>::un(k)); }));
    std::set<int> conc; int n = big ? g.range(20, 60) : g.range(1, 20); bool only = g.chance(70);
    for (int i = 0; i < n; ++i) {
        int k = g.below(nk), a = (int)g.below(na + 1) * 3 + 1;
        switch (g.below(only ? 7 : 9)) {
            case 0: case 1: case 2: { doing("insert"); auto [f, id] = m.insert(Key<T>::mk(k)); emit(Obj().f("ev", "insert").f("k", k).f("ignore", false).f("fresh", f).f("id", (long)id)); break; }
            case 3: { bool ig = g.chance(40); doing("exists"); auto [f, id] = m.exists(Key<T>::mk(k), ig); emit(Obj().f("ev", "exists").f("k", k).f("ignore", ig).f("found", f).f("id", f ? (long)id : -1L)); break; }
            case 4: { doing("get_concrete_values"); std::vector<int> b; for (auto&& x : m.get_concrete_values_range(a)) b.push_back(Key<T>::un(x)); emit(Obj().f("ev", "values").f("a", a).f("list", unk(m.get_concrete_values(a))).f("range", b)); break; }
            case 5: { doing("map"); emit(Obj().f("ev", "map").f("k", k).f("a", m.map(Key<T>::mk(k)))); break; }
            case 6: { doing("get_abstract_value"); size_t s = m.size(); std::vector<int> as; for (size_t j = 0; j < s; ++j) as.push_back(m.get_abstract_value(j)); emit(Obj().f("ev", "abstract").f("as", as)); break; }
            case 7: { doing("insert"); auto [f, id] = m.insert(Key<T>::mk(k), true); emit(Obj().f("ev", "insert").f("k", k).f("ignore", true).f("fresh", f).f("id", (long)id)); break; }
            default: { doing("insert_abstract"); auto [f, id] = m.insert_abstract(a); emit(Obj().f("ev", "insabs").f("a", a).f("fresh", f).f("id", (long)id)); }
        }
    }
    { size_t s = m.size(); for (size_t j = 0; j < s; ++j) if (m.get_concrete_values(m.get_abstract_value(j)).empty()) return; }
    doing("RefinementMapping"); RefinementMapping<T> r0(std::move(m)); emit(Obj().f("ev", "freeze"));
    std::unique_ptr<AbstractionPDA<T, weight<void>>> pda; // the same partition inside a PDA
    RefinementMapping<T> r = std::move(r0);
    bool inpda = g.chance(40); if (inpda) pda = std::make_unique<AbstractionPDA<T, weight<void>>>(std::move(r));
    auto dump = [&]() { if (!inpda) { rdump<T>(r, nk); return; }
        struct V { const AbstractionPDA<T, weight<void>>& p; auto exists(const T& k) const { return p.abstract_label(k); } auto get_concrete_values(size_t i) const { return p.get_concrete_labels(i); } auto get_concrete_values_range(size_t i) const { return p.get_concrete_labels_range(i); } size_t size() const { return p.number_of_labels(); } } v{*pda};
        rdump<T>(v, nk); };
    dump();
    int k = big ? g.range(4, 12) : g.range(1, 6);
    for (int i = 0; i < k; ++i) {
        size_t sz = inpda ? pda->number_of_labels() : r.size(); if (!sz) break;
        int x = g.below(10);
        if (x < 6) {
            size_t id = g.below(sz); auto mem = unk(inpda ? pda->get_concrete_labels(id) : r.get_concrete_values(id)); if (mem.empty()) continue;
            std::vector<std::vector<int>> parts; auto ref = gen_ref<T>(g, mem, (int)id, parts); doing("refine");
            if (inpda) pda->refine(ref); else r.refine(ref);
            emit(Obj().f("ev", "refine").f("id", (long)id).f("parts", parts)); dump();
        } else if (x < 8) {
            int q = g.below(nk), id = g.below(sz + 1); doing("maps_to"); bool b = inpda ? pda->maps_to(Key<T>::mk(q), id) : r.maps_to(Key<T>::mk(q), id); emit(Obj().f("ev", "mapsto").f("k", q).f("id", id).f("res", b));
        } else {
            std::vector<int> ks; std::vector<T> v; for (int q = 0; q < nk; ++q) { bool f = inpda ? pda->abstract_label(Key<T>::mk(q)).first : r.exists(Key<T>::mk(q)).first; if (f && g.chance(60)) { ks.push_back(q); v.push_back(Key<T>::mk(q)); } }
            std::sort(v.begin(), v.end()); bool neg = inpda && g.chance(50); doing("encode");
            std::vector<long> ids; if (inpda) for (auto e : pda->encode_labels(v, neg)) ids.push_back(e); else for (auto e : r.encode_many(v)) ids.push_back((long)e);
            emit(Obj().f("ev", "encode").f("ks", ks).f("neg", neg).f("ids", ids));
        }
    }
    dump();
}
template <typename R> static std::vector<std::vector<int>> pj(const R& r) { std::vector<std::vector<int>> v; for (auto& p : r.partitions()) v.push_back(unk(p)); return v; }
template <typename A, typename B> static void makeref(long c, Rng& g) {
    bool big = g.chance(15); int na = big ? g.range(3, 9) : g.range(1, 5), nb = big ? g.range(3, 9) : g.range(1, 5); std::set<std::pair<int,int>> X, Y; std::set<int> W;
    int m = big ? g.range(8, 30) : g.range(1, 10);
    for (int i = 0; i < m; ++i) { std::pair<int,int> p{(int)g.below(na), (int)g.below(nb)}; if (X.count(p) || Y.count(p)) continue; (g.chance(50) ? X : Y).insert(p); }
    if (X.empty()) { X.swap(Y); }
    if (g.chance(30)) for (int a = 0; a < na; ++a) { bool used = false; for (auto& p : X) used |= p.first == a; for (auto& p : Y) used |= p.first == a; if (!used && g.chance(60)) W.insert(a); }
    if (Y.empty() && W.empty()) { W.insert(na); }
    std::vector<std::pair<A, B>> x, y; std::vector<A> w; std::vector<std::pair<int,int>> jx, jy;
    for (auto& p : X) { x.emplace_back(Key<A>::mk(p.first), Key<B>::mk(p.second)); if (g.chance(20)) x.push_back(x.back()); jx.push_back(p); } for (auto& p : Y) { y.emplace_back(Key<A>::mk(p.first), Key<B>::mk(p.second)); jy.push_back(p); } for (int a : W) w.push_back(Key<A>::mk(a));
    std::sort(w.begin(), w.end());
    bool b = g.chance(65); doing(b ? "best_refinement" : "fast_refinement");
    auto r = b ? make_refinement<refinement_option_t::best_refinement>(std::move(x), std::move(y), 3, 5, std::move(w)) : make_refinement<refinement_option_t::fast_refinement>(std::move(x), std::move(y), 3, 5, std::move(w));
    emit(Obj().f("ev", "makeref").f("case", c).f("best", b).f("X", jx).f("Y", jy).f("W", std::vector<int>(W.begin(), W.end())).f("A", pj(r.first)).f("B", pj(r.second)).f("ids", std::vector<long>{(long)r.first.abstract_id, (long)r.second.abstract_id}));
}
template <typename T> static void combine(long c, Rng& g) {
    HeaderRefinement<T> h; int nid = g.range(1, 2), nk = g.range(2, g.chance(80) ? 9 : 16), n = g.range(1, 6);
    emit(Obj().f("ev", "new").f("case", c).f("fn", std::vector<int>{}));
    for (int i = 0; i < n; ++i) {
        std::set<int> a, b; for (int k = 0; k < nk; ++k) { int x = g.below(3); if (x == 0) a.insert(k); else if (x == 1) b.insert(k); }
        if (a.empty() || b.empty()) continue;
        int id = g.below(nid); std::vector<T> va, vb; for (int k : a) va.push_back(Key<T>::mk(k)); for (int k : b) vb.push_back(Key<T>::mk(k));
        for (auto* v : {&va, &vb}) for (size_t j = v->size(); j > 1; --j) std::swap((*v)[j - 1], (*v)[g.below((int)j)]);
        doing("combine"); h.combine(Refinement<T>(std::move(va), std::move(vb), id));
        std::vector<raw> rs; for (auto& r : h.refinements()) rs.push_back(Obj().f("id", (long)r.abstract_id).f("parts", pj(r)).r());
        emit(Obj().f("ev", "combine").f("id", id).f("a", std::vector<int>(a.begin(), a.end())).f("b", std::vector<int>(b.begin(), b.end())).f("refs", rs).f("empty", h.empty()));
    }
}

// ---------------------------------- C19 ----------------------------------
template <typename L> struct Lab;
template <> struct Lab<str> { static str mk(int i) { return name(i); } static int un(const str& s) { return num(s); } };
template <> struct Lab<int> { static int mk(int i) { return i * 7 - 5; } static int un(int v) { return (v + 5) / 7; } };
template <typename L, typename W> class Dfs : public DFS_PDAFactory<L, W> {
public:
    using rule_t = typename DFS_PDAFactory<L, W>::rule_t;
    const Inst& x; std::vector<size_t> in; std::set<int> ac; std::map<size_t, int> asked;
    Dfs(const std::unordered_set<L>& all, L wild, const Inst& x, std::vector<size_t> in, std::set<int> ac) : DFS_PDAFactory<L, W>(all, wild), x(x), in(in), ac(ac) {}
protected:
    const std::vector<size_t>& initial() override { return in; }
    bool accepting(size_t s) override { return ac.count((int)s) != 0; }
    std::vector<rule_t> rules(size_t s) override {
        ++asked[s]; std::vector<rule_t> v;
        for (auto& r : x.rules) if (r.from == (int)s) {
            auto add = [&](L pre) { rule_t q; q._from = s; q._to = r.to; q._op = opt(r.op); q._op_label = Lab<L>::mk(r.opl); q._pre = pre; if constexpr (is_weighted<W>) q._weight = r.w[0]; v.push_back(q); };
            if (r.wild) add(this->_wildcard_label); else for (int p : r.pre) add(Lab<L>::mk(p));
        }
        return v;
    }
};
template <typename L, typename W> static void fact(long c, Rng& g) {
    GenOpt o; o.maxp = 6; o.maxl = 4; o.maxr = 12;
    Inst x = gen_inst(g, o);
    auto in = some_states(g, x.np), ac = some_states(g, x.np); if (g.chance(40)) ac.insert(g.below(x.np));
    Re ri = gen_re(g, x.nl, 2), rf = gen_re(g, x.nl, 2);
    x.I = aut_of(ri, x.np, x.nl, in); x.F = aut_of(rf, x.np, x.nl, ac);
    std::vector<str> want; if (is_weighted<W>) want.push_back("min");
    emit(inst_json(x, c, want));
    std::unordered_set<L> all; for (int i = 0; i < x.nl; ++i) all.insert(Lab<L>::mk(i));
    std::vector<size_t> iv(in.begin(), in.end());
    Dfs<L, W> f(all, Lab<L>::mk(40), x, iv, ac);
    auto ni = nfa_of<L>(ri, [](int i) { return Lab<L>::mk(i); }), nf = nfa_of<L>(rf, [](int i) { return Lab<L>::mk(i); }); ni.compile(); nf.compile();
    doing("compile"); auto made = f.compile(ni, nf);
    auto inst(std::move(made)); 
    std::vector<raw> rs; size_t s = 0;
    for (auto& st : inst->pda().states()) { for (auto& [r, ls] : st._rules) for (int i = 0; i < x.nl; ++i) { auto id = inst->pda().exists_label(Lab<L>::mk(i)); if (id.first && ls.contains(id.second)) { bool ol = r._operation == PUSH || r._operation == SWAP; int w = 0; if constexpr (is_weighted<W>) w = (int)r._weight; else w = 0;
        rs.push_back(Obj().f("from", (long)s).f("pre", i).f("op", r._operation == PUSH ? "push" : r._operation == POP ? "pop" : r._operation == SWAP ? "swap" : "noop").f("opl", ol ? Lab<L>::un(inst->pda().get_symbol(r._op_label)) : -1).f("to", (long)r._to).f("w", w).r()); } } ++s; }
    std::vector<int> asked, twice; for (auto& [k, v] : f.asked) { asked.push_back((int)k); if (v > 1) twice.push_back((int)k); }
    emit(Obj().f("ev", "compiled").f("weighted", is_weighted<W>).f("start", std::vector<int>(in.begin(), in.end())).f("rules", rs).f("asked", asked).f("twice", twice).f("labels", (long)inst->pda().number_of_labels()));
    auto cfgs = [&](const auto& t) { std::vector<raw> cs; for (auto& y : t) { std::vector<int> v; for (auto& z : y._stack) v.push_back(Lab<L>::un(z)); cs.push_back(raw{"[" + js((long)y._pdastate) + "," + js(v) + "]"}); } return cs; };
    int e = g.below(3); bool r;
    if constexpr (is_weighted<W>) {
        doing("post-shortest"); r = Solver::post_star_accepts<Trace_Type::Shortest>(*inst); emit(Obj().f("ev", "verdict").f("e", "post").f("res", r));
        if (r) { auto [t, w] = Solver::get_trace<Trace_Type::Shortest>(*inst); emit(Obj().f("ev", "wtrace").f("e", "post").f("obj", "min").f("inf", false).f("ok", true).f("w", (long)w).f("cfg", cfgs(t))); }
    } else {
        static const char* en[] = {"post", "pre", "dual"}; doing(en[e]);
        r = e == 0 ? Solver::post_star_accepts<Trace_Type::Any>(*inst) : e == 1 ? Solver::pre_star_accepts<Trace_Type::Any>(*inst) : Solver::dual_search_accepts<Trace_Type::Any>(*inst);
        emit(Obj().f("ev", "verdict").f("e", en[e]).f("res", r));
        if (r) emit(Obj().f("ev", "trace").f("e", en[e]).f("cfg", e == 2 ? cfgs(Solver::get_trace_dual_search(*inst)) : cfgs(Solver::get_trace(*inst))));
    }
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    return run_cases(a.lo, a.hi, 20, [&](long c) {
        Rng g(a.seed * 1000003 + c);
        if (a.mode == "solve") solve(c, g);
        else if (a.mode == "fact") { switch (g.below(3)) { case 0: fact<str, weight<void>>(c, g); break; case 1: fact<int, weight<void>>(c, g); break; default: fact<str, weight<uint32_t>>(c, g); } }
        else switch (g.below(6)) { case 0: case 1: mapping<str>(c, g); break; case 2: mapping<size_t>(c, g); break; case 3: makeref<size_t, str>(c, g); break; case 4: makeref<str, size_t>(c, g); break; default: combine<str>(c, g); }
    });
}
