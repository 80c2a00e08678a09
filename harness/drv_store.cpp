// Conformance driver for the rule store of a PDA: histories of insertions through every entry point.
#include "common.h"
#include <array>
#include <optional>
#include <set>
#include <pdaaal/PDA.h>
using namespace pdaaal;
using namespace vf;
template <typename T> struct Code;
template <> struct Code<int> { static int mk(int i) { return i * 5 - 9; } static int un(int v) { return (v + 9) / 5; } };
template <> struct Code<char> { static char mk(int i) { return (char)('a' + i); } static int un(char v) { return v - 'a'; } };
template <> struct Code<std::string> { static std::string mk(int i) { return std::string(1 + i % 3, (char)('a' + i)); } static int un(const std::string& s) { return s.empty() ? -1 : s[0] - 'a'; } };
template <typename W> struct WV { static int dims; static std::string js_(const typename W::type& w) { if constexpr (std::is_arithmetic_v<typename W::type>) return "[" + std::to_string(w) + "]"; else return js(std::vector<int>(w.begin(), w.end())); }
    static typename W::type rnd(Rng& g) { auto one = [&]() { return g.range(W::is_signed ? -1 : 0, 2); };
        if constexpr (std::is_arithmetic_v<typename W::type>) return one(); else if constexpr (W::is_vector) { std::vector<int> v(g.range(0, 2)); for (auto& x : v) x = one(); return v; } else { typename W::type v; for (auto& x : v) x = one(); return v; } } };
template <> struct WV<weight<void>> { };
static const char* OP(op_t o) { switch (o) { case PUSH: return "push"; case POP: return "pop"; case SWAP: return "swap"; case NOOP: return "noop"; } return "?"; }

template <typename L, typename W, fut::type C, typename S> struct Sess {
    static constexpr bool named = !std::is_same_v<S, size_t>, weighted = is_weighted<W>;
    using P = PDA<L, W, C, S>; using PV = PDA<L, W, fut::type::vector, S>;
    Rng& g; std::optional<P> pda; std::optional<PV> conv; int nl, ns; std::vector<int> known, kstates;
    bool big; // more states, labels and operations
    Sess(Rng& g) : g(g), big(g.chance(10)), nl(0), ns(0) { nl = big ? g.range(4, 15) : g.range(1, 5); ns = big ? g.range(1, 15) : g.range(1, 5); }
    static S stn(int i) { if constexpr (named) return Code<S>::mk(i); else return (S)i; }
    static int uns(const S& s) { if constexpr (named) return Code<S>::un(s); else return (int)s; }
    template <typename R> static std::string wjs(const R& r) { if constexpr (weighted) return WV<W>::js_(r._weight); else return "[]"; }
    template <typename A> void dump(const A& p) {
        doing("enumerate");
        std::vector<raw> sts;
        for (auto& st : p.states()) {
            std::vector<raw> rs; std::vector<long> pre; for (auto x : st._pre_states) pre.push_back((long)x);
            for (auto& [r, ls] : st._rules) {
                std::vector<int> has, lb; for (uint32_t i = 0; i < p.number_of_labels(); ++i) if (ls.contains(i)) has.push_back(i); for (auto x : ls.labels()) lb.push_back((int)x);
                rs.push_back(Obj().f("to", (long)r._to).f("op", OP(r._operation)).f("opl", r._operation == PUSH || r._operation == SWAP ? (int)r._op_label : -1).f("w", raw{wjs(r)}).f("wild", ls.wildcard()).f("labels", lb).f("has", has).r());
            }
            sts.push_back(Obj().f("rules", rs).f("pre", pre).r());
        }
        bool neg = false; if constexpr (weighted) neg = p.has_negative_weight([](const auto& a, const auto& b) { return min_weight<typename W::type>::less(a, b); });
        emit(Obj().f("ev", "dump").f("states", sts).f("negative", neg));
        doing("all_rules"); std::vector<raw> all;
        for (auto& r : p.all_rules()) all.push_back(raw{"[" + js((long)r._from) + "," + js(Code<L>::un(r._pre)) + "," + js((long)r._to) + "," + js(OP(r._op)) + "," + (r._op == PUSH || r._op == SWAP ? js(Code<L>::un(r._op_label)) : "-1") + "," + wjs(r) + "]"});
        emit(Obj().f("ev", "all").f("rules", all));
    }
    template <typename A> void lookups(const A& p) {
        int x = g.below(nl + 1), s = g.below(ns + 1);
        switch (g.below(6)) {
            case 0: { doing("exists_label"); auto r = p.exists_label(Code<L>::mk(x)); Obj o; o.f("ev", "lookup").f("q", "label").f("x", x).f("found", r.first); if (r.first) o.f("id", (long)r.second); emit(o); break; }
            case 1: if (p.number_of_labels()) { int id = g.below(p.number_of_labels()); doing("get_symbol"); emit(Obj().f("ev", "lookup").f("q", "symbol").f("id", id).f("x", Code<L>::un(p.get_symbol(id)))); } break;
            case 2: { doing("exists_state"); auto r = p.exists_state(stn(s)); Obj o; o.f("ev", "lookup").f("q", "state").f("named", named).f("x", s).f("found", r.first); if (r.first) o.f("id", (long)r.second); emit(o); break; }
            case 3: { size_t m = p.states().size(); if constexpr (named) m = p.state_map_size(); if (m) { int id = g.below(m); doing("get_state"); emit(Obj().f("ev", "lookup").f("q", "name").f("named", named).f("id", id).f("x", uns(p.get_state(id)))); } break; }
            case 4: if (!known.empty()) { std::vector<int> xs; std::vector<L> ls; int m = g.range(0, 4); for (int i = 0; i < m; ++i) { xs.push_back(known[g.below(known.size())]); ls.push_back(Code<L>::mk(xs.back())); }
                doing("encode_pre"); std::vector<long> ids; for (auto i : p.encode_pre(ls)) ids.push_back(i); emit(Obj().f("ev", "lookup").f("q", "encode").f("xs", xs).f("ids", ids)); } break;
            default: { Obj o; o.f("ev", "lookup").f("q", "counts").f("named", named).f("labels", (long)p.number_of_labels()).f("states", (long)p.states().size()); if constexpr (named) o.f("named_states", (long)p.state_map_size()); emit(o); }
        }
    }
    size_t state() { // a state number to use in a rule
        if constexpr (named) { if (kstates.empty() || g.chance(30)) { int s = g.below(ns); doing("insert_state"); size_t id = pda->insert_state(stn(s)); kstates.push_back((int)id); emit(Obj().f("ev", "state").f("named", true).f("x", s).f("id", (long)id)); return id; } return kstates[g.below(kstates.size())]; }
        else return g.below(ns);
    }
    void label(int x) { doing("insert_label"); auto id = pda->insert_label(Code<L>::mk(x)); emit(Obj().f("ev", "label").f("x", x).f("id", (long)id)); if (std::find(known.begin(), known.end(), x) == known.end()) known.push_back(x); }
    void add() {
        size_t from = state(), to = state(); static const op_t ops[] = {PUSH, POP, SWAP, NOOP}; op_t op = ops[g.below(4)];
        if (known.empty()) label(g.below(nl));
        int opl = known[g.below(known.size())]; std::vector<int> pre; int how = g.below(6);
        if (how < 2) { pre.push_back(known[g.below(known.size())]); } else { int m = g.range(0, big ? 9 : 3); for (int i = 0; i < m; ++i) pre.push_back(known[g.below(known.size())]); }
        bool wild = false; std::vector<L> pl; for (int x : pre) pl.push_back(Code<L>::mk(x));
        typename std::conditional_t<weighted, typename W::type, int> w{}; std::string wj = "[]"; bool defw = g.chance(25);
        if constexpr (weighted) { w = defw ? W::zero() : WV<W>::rnd(g); wj = WV<W>::js_(w); }
        auto id = [&](int x) { return (uint32_t)pda->exists_label(Code<L>::mk(x)).second; };
        L ol = Code<L>::mk(opl);
        uint32_t oid = op == PUSH || op == SWAP ? id(opl) : std::numeric_limits<uint32_t>::max();
        doing("add_rule");
        if (how == 0) { if constexpr (weighted) { if (defw) pda->add_rule(from, to, op, ol, pl[0]); else pda->add_rule(from, to, op, ol, pl[0], w); } else pda->add_rule(from, to, op, ol, pl[0]); }
        else if (how == 1) { if constexpr (weighted) { const typename P::rule_t r(from, pl[0], to, op, ol, w); pda->add_rule(r); } else { const typename P::rule_t r(from, pl[0], to, op, ol); pda->add_rule(r); } }
        else if (how == 2) { wild = g.chance(30); if constexpr (weighted) { if (defw) pda->add_rule(from, to, op, ol, wild, pl); else pda->add_rule(from, to, op, ol, wild, pl, w); } else pda->add_rule(from, to, op, ol, wild, pl); }
        else if (how == 3) { wild = true; pre.clear(); L pr{}; if constexpr (weighted) { const typename P::rule_t r(from, pr, to, op, ol, w); pda->add_wildcard_rule(r); } else { const typename P::rule_t r(from, pr, to, op, ol); pda->add_wildcard_rule(r); } }
        else if (how == 4) { // numbers instead of names
            auto& b = static_cast<internal::PDA<W, C>&>(*pda);
            if (pre.empty()) pre.push_back(known[0]); pre.resize(1); wild = g.chance(30);
            user_rule_t<W> u; u._from = from; u._to = to; u._op = op; u._op_label = oid; u._pre = id(pre[0]); if constexpr (weighted) u._weight = w;
            if (wild) b.add_wildcard_rule(u); else b.add_rule(u);
        } else { std::set<uint32_t> ids; for (int x : pre) ids.insert(id(x)); wild = g.chance(30);
            internal::pda_rule_t<W> r; r._to = to; r._operation = op; r._op_label = oid; if constexpr (weighted) r._weight = w;
            pda->add_rule_detail(from, r, wild, std::vector<uint32_t>(ids.begin(), ids.end())); }
        // the specification works with label numbers for operands
        emit(Obj().f("ev", "add").f("how", how).f("from", (long)from).f("to", (long)to).f("op", OP(op)).f("opl", (long)id(opl)).f("w", raw{wj}).f("wild", wild).f("pre", pre));
    }
    void run(long c) {
        // A set of labels known from the start is numbered in its own order.
        std::vector<int> start;
        if (g.chance(50)) { std::unordered_set<L> all; std::set<L> ord; for (int i = 0; i < nl; ++i) if (g.chance(60)) { all.insert(Code<L>::mk(i)); ord.insert(Code<L>::mk(i)); } for (auto& x : ord) start.push_back(Code<L>::un(x)); known = start; doing("PDA(labels)"); pda.emplace(all); }
        else pda.emplace();
        emit(Obj().f("ev", "new").f("case", c).f("labels", start));
        int n = big ? g.range(30, 90) : g.range(3, 40);
        for (int i = 0; i < n; ++i) {
            int x = g.below(100);
            if (x < 12) label(g.below(nl));
            else if (x < 20) { int s = g.below(ns); doing("insert_state"); size_t id = pda->insert_state(stn(s)); kstates.push_back((int)id); emit(Obj().f("ev", "state").f("named", named).f("x", s).f("id", (long)id)); }
            else if (x < 70) add();
            else if (x < 82) lookups(*pda);
            else if (x < 85) { // unknown operand label
                size_t from = state(), to = state(); bool err = false; doing("add_rule"); L unk = Code<L>::mk(nl + 1); if (known.empty()) continue; L pr = Code<L>::mk(known[0]);
                try { if (g.chance(50)) pda->add_rule(from, to, g.chance(50) ? PUSH : SWAP, unk, pr); else { const typename P::rule_t r(from, pr, to, PUSH, unk); pda->add_wildcard_rule(r); } } catch (std::logic_error&) { err = true; }
                emit(Obj().f("ev", "adderror").f("x", nl + 1).f("error", err)); }
            else if (x < 88) { if constexpr (C == fut::type::vector) if (pda->states().size() && g.chance(60)) { int s = g.below(pda->states().size()); doing("clear_state"); pda->clear_state(s); emit(Obj().f("ev", "clearstate").f("s", s)); } }
            else if (!big || g.chance(20)) dump(*pda);
        }
        dump(*pda);
        for (int i = 0; i < 5; ++i) lookups(*pda);
        if constexpr (C == fut::type::hash) { doing("convert"); conv.emplace(std::move(*pda)); emit(Obj().f("ev", "convert")); dump(*conv); for (int i = 0; i < 5; ++i) lookups(*conv); }
    }
};
static void labelset(long c, Rng& g) {
    emit(Obj().f("ev", "new").f("case", c).f("labels", std::vector<int>{}));
    internal::labels_t s; int nl = g.chance(15) ? g.range(7, 20) : g.range(1, 6), n = g.range(2, 12);
    for (int i = 0; i < n; ++i) {
        std::set<uint32_t> x; int pct = g.chance(20) ? 100 : g.range(0, 90); for (int j = 0; j < nl; ++j) if (g.chance(pct)) x.insert(j);
        std::vector<uint32_t> v(x.begin(), x.end()); Obj o; o.f("ev", "ls").f("nl", nl).f("x", v);
        switch (g.below(10)) {
            case 0: doing("clear"); s.clear(); o.f("op", "clear"); break;
            case 1: case 2: case 3: { doing("intersect"); bool r = s.intersect(v, nl); o.f("op", "inter").f("res", r); break; }
            case 4: case 5: { doing("noop_pre_filter"); bool r = s.noop_pre_filter(x); o.f("op", "filter").f("res", r); break; }
            default: { bool w = g.chance(20); doing("merge"); s.merge(w, v); o.f("op", "merge").f("wild", w); }
        }
        std::vector<int> has; for (int j = 0; j < nl; ++j) if (s.contains(j)) has.push_back(j);
        o.f("after", Obj().f("wild", s.wildcard()).f("empty", s.empty()).f("labels", s.labels()).f("has", has).r());
        emit(o);
    }
}
template <typename L, typename W, typename S> void cont(long c, Rng& g) { if (g.chance(50)) { Sess<L,W,fut::type::vector,S> s(g); s.run(c); } else { Sess<L,W,fut::type::hash,S> s(g); s.run(c); } }
int main(int argc, char** argv) {
    Args a(argc, argv);
    return run_cases(a.lo, a.hi, 20, [&](long c) {
        Rng g(a.seed * 1000003 + c);
        switch (g.below(9)) {
            case 0: cont<std::string, weight<void>, size_t>(c, g); break; case 1: cont<char, weight<void>, std::string>(c, g); break; case 2: cont<int, weight<void>, size_t>(c, g); break;
            case 3: cont<std::string, weight<uint32_t>, std::string>(c, g); break; case 4: cont<int, weight<int32_t>, size_t>(c, g); break; case 5: cont<std::string, weight<std::array<int,2>>, int>(c, g); break;
            case 6: cont<char, weight<std::vector<int>>, size_t>(c, g); break;
            default: labelset(c, g);
        }
    });
}
