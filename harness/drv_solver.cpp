// Conformance driver for the reachability engines. Compile with -DWTYPE=<0 none, 1 uint32, 2 int32, 3 array<uint32,2>, 4 vector<uint32>>.
#include "instance.h"
#include <pdaaal/PDA.h>
#include <pdaaal/PAutomaton.h>
#include <pdaaal/PAutomatonProduct.h>
#include <pdaaal/Solver.h>
#ifndef WTYPE
#define WTYPE 0
#endif
using namespace pdaaal;
using namespace vf;

#if WTYPE == 0
using W = weight<void>;
#elif WTYPE == 1
using W = weight<uint32_t>;
#elif WTYPE == 2
using W = weight<int32_t>;
#elif WTYPE == 3
using W = weight<std::array<uint32_t,2>>;
#else
using W = weight<std::vector<uint32_t>>;
#endif
using pda_t = PDA<std::string, W>;
using aut_t = PAutomaton<std::string, W, size_t, true, TraceInfoType::Single>;
using aut2_t = PAutomaton<std::string, W, size_t, true, TraceInfoType::Pair>;

#if WTYPE == 3
static std::array<uint32_t,2> mk_w(const std::vector<int>& w) { return {(uint32_t)w[0], (uint32_t)w[1]}; }
static long enc(const std::array<uint32_t,2>& w) { return (long)w[0] * 1000 + w[1]; }
static bool sane(const std::array<uint32_t,2>& w) { return w[0] < 1000 && w[1] < 1000; }
#elif WTYPE == 4
static std::vector<uint32_t> mk_w(const std::vector<int>& w) { return {(uint32_t)w[0], (uint32_t)w[1]}; }
static long enc(const std::vector<uint32_t>& w) { return (w.size() > 0 ? (long)w[0] * 1000 : 0) + (w.size() > 1 ? w[1] : 0); }
static bool sane(const std::vector<uint32_t>& w) { return w.size() <= 2 && (w.size() < 1 || w[0] < 1000) && (w.size() < 2 || w[1] < 1000); }
#elif WTYPE != 0
static W::type mk_w(const std::vector<int>& w) { return (W::type)w[0]; }
static long enc(const W::type& w) { return (long)w; }
static bool sane(const W::type& w) { return (long)w > -1000000 && (long)w < 1000000; }
#endif

static pda_t build_pda(const Inst& x) {
    std::unordered_set<std::string> labels;
    for (int l = 0; l < x.nl; ++l) labels.insert(label_name(l));
    pda_t pda(labels);
    for (int p = 0; p < x.np; ++p) pda.insert_state(p);
    for (const auto& r : x.rules) {
        std::vector<std::string> pre; for (int l : r.pre) pre.push_back(label_name(l));
        std::string opl = (r.op == POP_ || r.op == NOOP_) ? std::string() : label_name(r.opl);
#if WTYPE == 0
        pda.add_rule((size_t)r.from, (size_t)r.to, (op_t)r.op, opl, r.wild, pre);
#else
        pda.add_rule((size_t)r.from, (size_t)r.to, (op_t)r.op, opl, r.wild, pre, mk_w(r.w));
#endif
    }
    return pda;
}
template <typename A>
static A build_aut(const pda_t& pda, const Inst& x, const Aut& a) {
    std::vector<size_t> ia; for (int s : a.acc) if (s < x.np) ia.push_back(s);
    A res(pda, ia, true);
    for (int s = x.np; s < a.n; ++s) res.add_state(false, a.acc.count(s) > 0);
    for (const auto& e : a.e) res.add_edge(e[0], e[2], (uint32_t)pda.exists_label(label_name(e[1])).second);
    return res;
}
static std::vector<std::pair<size_t,std::vector<int>>> cfgs(const std::vector<pda_t::tracestate_t>& t) {
    std::vector<std::pair<size_t,std::vector<int>>> r;
    for (const auto& s : t) {
        std::vector<int> st; for (const auto& l : s._stack) st.push_back((unsigned char)l[0] - 'A');
        r.emplace_back(s._pdastate, st);
    }
    return r;
}
template <TraceInfoType ti> struct aut_of { using type = aut_t; };
template <> struct aut_of<TraceInfoType::Pair> { using type = aut2_t; };
template <TraceInfoType ti = TraceInfoType::Single>
static auto product(const pda_t& pda, const Inst& x) {
    using A = typename aut_of<ti>::type;
    return PAutomatonProduct(pda, build_aut<A>(pda, x, x.I), build_aut<A>(pda, x, x.F));
}
static void verdict(const char* e, bool res) { emit(Obj().f("ev", "verdict").f("e", e).f("res", res)); }
static void trace(const char* e, const std::vector<pda_t::tracestate_t>& t) { emit(Obj().f("ev", "trace").f("e", e).f("cfg", cfgs(t))); }

// There is nothing to show for an unreachable instance: n configurations and rules in all that is returned.
static void notrace(const char* e, size_t n, bool state) { emit(Obj().f("ev", "notrace").f("e", e).f("n", n).f("state", state)); }
template <typename Tup>
static void rtrace(const char* e, const pda_t& pda, const Tup& t, bool r = true, long total = -1) {
    const auto& [init, rules, istack, fstack, ipath, fpath] = t;
    if (!r) { notrace(e, rules.size() + istack.size() + fstack.size() + ipath.size() + fpath.size(), init != std::numeric_limits<size_t>::max()); return; }
    std::string rs = "[";
    for (size_t i = 0; i < rules.size(); ++i) {
        const auto& r = rules[i];
        bool lab = r._op == PUSH || r._op == SWAP;
        if (i) rs += ",";
        rs += Obj().f("from", (size_t)r._from).f("pre", (uint32_t)r._pre).f("op", opname(r._op)).f("opl", lab ? (int)r._op_label : 0).f("to", (size_t)r._to)
#if WTYPE != 0
            .f("w", sane(r._weight) ? enc(r._weight) : -999L)
#endif
            .str();
    }
    rs += "]";
    emit(Obj().f("ev", "rtrace").f("e", e).f("init", init == std::numeric_limits<size_t>::max() ? -1 : (long)init).f("rules", raw{rs})
        .f("istack", istack).f("fstack", fstack).f("ipath", ipath).f("fpath", fpath)
        .f("weighted", WTYPE != 0).f("total", total));
}

static void do_verdict(const Inst& x) {
    auto pda = build_pda(x);
    { doing("post_none"); auto p = product(pda, x); verdict("post_none", Solver::post_star_accepts<Trace_Type::None>(p)); }
    { doing("post_any"); auto p = product(pda, x); bool r = Solver::post_star_accepts<Trace_Type::Any>(p); verdict("post_any", r);
      if (r) { doing("post_any trace"); trace("post_any", Solver::get_trace<Trace_Type::Any>(p)); } }
    { doing("post_noET"); auto p = product(pda, x); bool r = Solver::post_star_accepts_no_ET<Trace_Type::Any>(p); verdict("post_noET", r);
      if (r) { doing("post_noET trace"); trace("post_noET", Solver::get_trace<Trace_Type::Any>(p)); } }
    { doing("pre_none"); auto p = product(pda, x); verdict("pre_none", Solver::pre_star_accepts<Trace_Type::None>(p)); }
    { doing("pre_any"); auto p = product(pda, x); bool r = Solver::pre_star_accepts<Trace_Type::Any>(p); verdict("pre_any", r);
      if (r) { doing("pre_any trace"); trace("pre_any", Solver::get_trace<Trace_Type::Any>(p)); } }
    { doing("pre_noET"); auto p = product(pda, x); bool r = Solver::pre_star_accepts_no_ET(p); verdict("pre_noET", r);
      if (r) { doing("pre_noET trace"); trace("pre_noET", Solver::get_trace<Trace_Type::Any>(p)); } }
    { doing("dual_none"); auto p = product(pda, x); verdict("dual_none", Solver::dual_search_accepts<Trace_Type::None>(p)); }
    { doing("dual_any"); auto p = product(pda, x); bool r = Solver::dual_search_accepts<Trace_Type::Any>(p); verdict("dual_any", r);
      if (r) { doing("dual_any trace"); trace("dual_any", Solver::get_trace_dual_search<Trace_Type::Any>(p)); } }
}
static void do_rules(const Inst& x) {
    auto pda = build_pda(x);
    { doing("post_rules"); auto p = product(pda, x); bool r = Solver::post_star_accepts<Trace_Type::Any>(p); verdict("post_rules", r);
      rtrace("post_rules", pda, Solver::get_rule_trace_and_paths<Trace_Type::Any,false>(p), r); if (!r) notrace("post", Solver::get_trace<Trace_Type::Any>(p).size(), false); }
    { doing("pre_rules"); auto p = product(pda, x); bool r = Solver::pre_star_accepts<Trace_Type::Any>(p); verdict("pre_rules", r);
      rtrace("pre_rules", pda, Solver::get_rule_trace_and_paths<Trace_Type::Any,false>(p), r); if (!r) notrace("pre", Solver::get_trace<Trace_Type::Any>(p).size(), false); }
    { doing("dual_rules"); auto p = product(pda, x); bool r = Solver::dual_search_accepts<Trace_Type::Any>(p); verdict("dual_rules", r);
      rtrace("dual_rules", pda, Solver::get_rule_trace_and_paths<Trace_Type::Any,true>(p), r); if (!r) notrace("dual", Solver::get_trace_dual_search<Trace_Type::Any>(p).size(), false); }
#if WTYPE != 0
    auto total = [](const auto& w, bool r) { return r && sane(w) ? enc(w) : -1L; };
    { doing("post_short_rules"); auto p = product(pda, x); bool r = Solver::post_star_accepts<Trace_Type::Shortest>(p); verdict("post_short_rules", r);
      auto [t, w] = Solver::get_rule_trace_and_paths<Trace_Type::Shortest,false>(p); rtrace("post_short_rules", pda, t, r, total(w, r)); if (!r) notrace("post_short", Solver::get_trace<Trace_Type::Shortest>(p).first.size(), false); }
    { doing("pre_short_rules"); auto p = product(pda, x); bool r = Solver::pre_star_accepts<Trace_Type::Shortest>(p); verdict("pre_short_rules", r);
      auto [t, w] = Solver::get_rule_trace_and_paths<Trace_Type::Shortest,false>(p); rtrace("pre_short_rules", pda, t, r, total(w, r)); if (!r) notrace("pre_short", Solver::get_trace<Trace_Type::Shortest>(p).first.size(), false); }
    { doing("dual_short_rules"); auto p = product(pda, x); bool r = Solver::dual_search_accepts<Trace_Type::Shortest>(p); verdict("dual_short_rules", r);
      auto [t, w] = Solver::get_rule_trace_and_paths<Trace_Type::Shortest,true>(p); rtrace("dual_short_rules", pda, t, r, total(w, r)); if (!r) notrace("dual_short", Solver::get_trace_dual_search<Trace_Type::Shortest>(p).first.size(), false); }
#endif
}

// All stacks of length <= k.
static std::vector<std::vector<uint32_t>> stacks(int nl, int k) {
    std::vector<std::vector<uint32_t>> r{{}};
    size_t b = 0;
    for (int i = 0; i < k; ++i) {
        size_t e = r.size();
        for (size_t j = b; j < e; ++j) for (int l = 0; l < nl; ++l) { auto s = r[j]; s.push_back(l); r.push_back(s); }
        b = e;
    }
    return r;
}
// The library's ids for a stack (and the other way round), and the labels themselves.
static std::vector<uint32_t> nat(const pda_t& pda, const std::vector<uint32_t>& s) {
    std::vector<uint32_t> r; for (auto l : s) r.push_back((uint32_t)pda.exists_label(label_name((int)l)).second); return r;
}
static std::vector<std::string> names(const std::vector<uint32_t>& s) { std::vector<std::string> r; for (auto l : s) r.push_back(label_name((int)l)); return r; }
static std::vector<uint32_t> tall(const Inst& x, Rng& g) { std::vector<uint32_t> s(g.range(3, 6)); for (auto& l : s) l = g.below(x.nl); return s; }
template <typename A>
static void lang(const char* e, const pda_t& pda, const A& a, const Inst& x, int k) {
    std::vector<std::pair<int,std::vector<uint32_t>>> acc;
    for (int p = 0; p < x.np; ++p) for (const auto& s : stacks(x.nl, k)) if (a.accepts(p, nat(pda, s))) acc.emplace_back(p, s);
    emit(Obj().f("ev", "lang").f("e", e).f("k", k).f("acc", acc));
    std::vector<std::vector<int>> es; std::vector<int> fin;
    std::map<uint32_t,int> back{{std::numeric_limits<uint32_t>::max(), -1}}; // epsilon
    for (int l = 0; l < x.nl; ++l) back[(uint32_t)pda.exists_label(label_name(l)).second] = l;
    for (const auto& s : a.states()) {
        if (s->_accepting) fin.push_back((int)s->_id);
        for (const auto& [to, labels] : s->_edges) for (const auto& [lab, anno] : labels) es.push_back({(int)s->_id, back.count(lab) ? back[lab] : -2, (int)to});
    }
    emit(Obj().f("ev", "graph").f("e", e).f("edges", es).f("acc", fin));
}
static std::vector<int> ints(const std::vector<uint32_t>& s) { return std::vector<int>(s.begin(), s.end()); }
static void do_lang(const Inst& x, Rng& g) {
    auto pda = build_pda(x);
    const int k = x.nl > 2 ? 2 : 3;
    auto singles = [&](const char* e, const aut_t& a) {
        for (int i = 0; i < 6; ++i) {
            size_t p = g.below(x.np); auto s = i >= 4 ? tall(x, g) : g.pick(stacks(x.nl, k));
            if (i == 0) s.clear();
            auto t = i % 2 ? Solver::get_trace<Trace_Type::Any>(pda, a, p, names(s)) : Solver::get_trace<Trace_Type::Any>(pda, a, p, nat(pda, s));
            emit(Obj().f("ev", "tracefrom").f("e", e).f("p", p).f("s", ints(s)).f("cfg", cfgs(t)));
        }
    };
    { doing("init lang"); auto a = build_aut<aut_t>(pda, x, x.I); lang("init", pda, a, x, k); }
    { doing("post lang"); auto a = build_aut<aut_t>(pda, x, x.I); Solver::post_star<Trace_Type::Any>(a); lang("post", pda, a, x, k);
      doing("post single trace"); singles("post", a); }
    { doing("pre lang"); auto a = build_aut<aut_t>(pda, x, x.F); Solver::pre_star<Trace_Type::Any>(a); lang("pre", pda, a, x, k);
      doing("pre single trace"); singles("pre", a); }
    for (int i = 0; i < 4; ++i) { // pre* query for one configuration
        doing("pre_star_accepts(config)");
        size_t p = g.below(x.np); auto s = i == 3 ? tall(x, g) : g.pick(stacks(x.nl, 2));
        auto a = build_aut<aut_t>(pda, x, x.F);
        bool r = Solver::pre_star_accepts<Trace_Type::Any>(a, p, nat(pda, s));
        emit(Obj().f("ev", "query").f("e", "pre").f("p", p).f("s", s).f("res", r));
        emit(Obj().f("ev", "tracefrom").f("e", "pre").f("p", p).f("s", ints(s)).f("cfg", cfgs(Solver::get_trace<Trace_Type::Any>(pda, a, p, nat(pda, s)))));
    }
#if WTYPE == 1
    { doing("post shortest lang"); auto a = build_aut<aut_t>(pda, x, x.I); Solver::post_star<Trace_Type::Shortest>(a); lang("post", pda, a, x, k); }
    { doing("pre shortest lang"); auto a = build_aut<aut_t>(pda, x, x.F); Solver::pre_star<Trace_Type::Shortest>(a); lang("pre", pda, a, x, k); }
    { doing("post fixed point lang"); auto a = build_aut<aut2_t>(pda, x, x.I); Solver::post_star_fixed_point<Trace_Type::Longest>(a); lang("post", pda, a, x, k); }
    { doing("pre fixed point lang"); auto a = build_aut<aut2_t>(pda, x, x.F); Solver::pre_star_fixed_point<Trace_Type::Longest>(a); lang("pre", pda, a, x, k); }
#endif
}
#if WTYPE != 0
// Shortest traces for single configurations, in the saturated automaton.
static void do_cfg(const Inst& x, Rng& g) {
    auto pda = build_pda(x);
    auto singles = [&](const char* e, const aut_t& a) {
        for (int i = 0; i < 5; ++i) {
            size_t p = g.below(x.np); auto s = i == 4 ? tall(x, g) : g.pick(stacks(x.nl, x.nl > 2 ? 2 : 3));
            if (i == 0) s.clear();
            auto [t, w] = i % 2 ? Solver::get_trace<Trace_Type::Shortest>(pda, a, p, names(s)) : Solver::get_trace<Trace_Type::Shortest>(pda, a, p, nat(pda, s));
            emit(Obj().f("ev", "wtracefrom").f("e", e).f("p", p).f("s", ints(s)).f("w", t.empty() || !sane(w) ? -1 : enc(w)).f("cfg", cfgs(t)));
        }
    };
    { doing("post shortest single trace"); auto a = build_aut<aut_t>(pda, x, x.I); Solver::post_star<Trace_Type::Shortest>(a); singles("post", a); }
    { doing("pre shortest single trace"); auto a = build_aut<aut_t>(pda, x, x.F); Solver::pre_star<Trace_Type::Shortest>(a); singles("pre", a); }
    for (int i = 0; i < 3; ++i) {
        doing("shortest pre_star_accepts(config)");
        size_t p = g.below(x.np); auto s = g.pick(stacks(x.nl, 2));
        if (i == 0) s = {(uint32_t)g.below(x.nl)}; // one symbol: early termination
        auto a = build_aut<aut_t>(pda, x, x.F);
        bool r = Solver::pre_star_accepts<Trace_Type::Shortest>(a, p, nat(pda, s));
        emit(Obj().f("ev", "query").f("e", "pre").f("p", p).f("s", s).f("res", r));
        auto [t, w] = Solver::get_trace<Trace_Type::Shortest>(pda, a, p, nat(pda, s));
        emit(Obj().f("ev", "wtracefrom").f("e", "pre").f("p", p).f("s", ints(s)).f("w", t.empty() || !sane(w) ? -1 : enc(w)).f("cfg", cfgs(t)));
    }
}
#endif
#if WTYPE != 0
static void wtrace(const char* e, const char* obj, bool inf, bool ok, long w, const std::vector<pda_t::tracestate_t>& t) {
    emit(Obj().f("ev", "wtrace").f("e", e).f("obj", obj).f("inf", inf).f("ok", ok).f("w", ok && !inf ? w : 0L).f("cfg", cfgs(t)));
}
static void do_short(const Inst& x) {
    auto pda = build_pda(x);
    { doing("post_short"); auto p = product(pda, x); bool r = Solver::post_star_accepts<Trace_Type::Shortest>(p); verdict("post_short", r);
      if (r) { auto [t, w] = Solver::get_trace<Trace_Type::Shortest>(p); wtrace("post_short", "min", false, sane(w), enc(w), t); } }
    { doing("pre_short"); auto p = product(pda, x); bool r = Solver::pre_star_accepts<Trace_Type::Shortest>(p); verdict("pre_short", r);
      if (r) { auto [t, w] = Solver::get_trace<Trace_Type::Shortest>(p); wtrace("pre_short", "min", false, sane(w), enc(w), t); } }
    { doing("dual_short"); auto p = product(pda, x); bool r = Solver::dual_search_accepts<Trace_Type::Shortest>(p); verdict("dual_short", r);
      if (r) { auto [t, w] = Solver::get_trace_dual_search<Trace_Type::Shortest>(p); wtrace("dual_short", "min", false, sane(w), enc(w), t); } }
}
template <Trace_Type tt> static bool is_inf(const typename W::type& w) {
    if constexpr (tt == Trace_Type::ShortestFixedPoint && !W::is_signed) return false;
    else if constexpr (tt == Trace_Type::Longest) return w == max_weight<typename W::type>::bottom();
    else return w == min_weight<typename W::type>::bottom();
}
template <Trace_Type tt> static void fixed(const char* n1, const char* n2, const char* n3, const char* obj, const Inst& x) {
    constexpr auto ti = TraceInfoType::Pair;
    auto pda = build_pda(x);
    { doing(n1); auto p = product<ti>(pda, x); bool r = Solver::post_star_fixed_point_accepts<tt>(p); verdict(n1, r);
      if (r) { auto [t, w] = Solver::get_trace<tt>(p); wtrace(n1, obj, is_inf<tt>(w), is_inf<tt>(w) || sane(w), enc(w), t); } }
    { doing(n2); auto p = product<ti>(pda, x); bool r = Solver::pre_star_fixed_point_accepts<tt>(p); verdict(n2, r);
      if (r) { auto [t, w] = Solver::get_trace<tt>(p); wtrace(n2, obj, is_inf<tt>(w), is_inf<tt>(w) || sane(w), enc(w), t); } }
    { doing(n3); auto p = product<ti>(pda, x); auto q = p.copy(); auto [r, pre] = Solver::interleaving_fixed_point_accepts<tt>(p, q); verdict(n3, r);
      if (r) { auto [t, w] = Solver::get_trace<tt>(pre ? q : p); wtrace(n3, obj, is_inf<tt>(w), is_inf<tt>(w) || sane(w), enc(w), t); } }
}
static void do_fix(const Inst& x) {
#if WTYPE <= 2 // The optimum of an unbounded lexicographic weight is not defined by the library.
    fixed<Trace_Type::Longest>("post_long", "pre_long", "both_long", "max", x);
#endif
    fixed<Trace_Type::ShortestFixedPoint>("post_sfix", "pre_sfix", "both_sfix", "min", x);
}
#endif

// How worthwhile an instance is: disagreement between engines above all, then long witnesses.  Only the choice of the
// instances depends on this; the specification decides about the recorded answers.
static long interest(const Inst& x, const std::string& mode, Rng g) {
    auto pda = build_pda(x);
    const long ALARM = 1000000;
    long best = 0;
    auto run = [&](const std::vector<pda_t::tracestate_t>& t) -> bool { size_t n = sim_run(x, cfgs(t)); best = std::max(best, (long)n); return n > 0; };
    doing("screening");
    if (mode == "verdict" || mode == "rules") {
        auto p = product(pda, x); bool r1 = Solver::post_star_accepts<Trace_Type::Any>(p);
        auto q = product(pda, x); bool r2 = Solver::pre_star_accepts<Trace_Type::Any>(q);
        auto d = product(pda, x); bool r3 = Solver::dual_search_accepts<Trace_Type::Any>(d);
        if (r1 != r2 || r1 != r3) return ALARM;
        if (r1 && (!run(Solver::get_trace<Trace_Type::Any>(p)) || !run(Solver::get_trace<Trace_Type::Any>(q)) || !run(Solver::get_trace_dual_search<Trace_Type::Any>(d)))) return ALARM;
        return best;
    }
    if (mode == "lang" || mode == "cfg") {
        auto a = build_aut<aut_t>(pda, x, x.I); Solver::post_star<Trace_Type::Any>(a);
        auto b = build_aut<aut_t>(pda, x, x.F); Solver::pre_star<Trace_Type::Any>(b);
        auto st = stacks(x.nl, 2);
        for (int i = 0; i < 3; ++i) {
            size_t p = g.below(x.np); auto s = i == 0 ? std::vector<uint32_t>() : g.pick(st);
            Inst y = x; y.F = Aut(); y.F.n = x.np + s.size();
            int last = p; for (size_t k = 0; k < s.size(); ++k) { y.F.e.insert({last, (int)s[k], (int)(x.np + k)}); last = x.np + k; }
            y.F.acc.insert(last);
            auto pr = product(pda, y);
            bool r = Solver::pre_star_accepts<Trace_Type::Any>(pr);
            if (r != a.accepts(p, nat(pda, s))) return ALARM;
            if (r) best = std::max(best, (long)Solver::get_trace<Trace_Type::Any>(pr).size());
            Inst z = x; z.I = y.F;
            auto po = product(pda, z);
            r = Solver::post_star_accepts<Trace_Type::Any>(po);
            if (r != b.accepts(p, nat(pda, s))) return ALARM;
#if WTYPE != 0
            if (mode == "cfg") {
                auto u = product(pda, y); auto v = product(pda, z);
                auto a2 = build_aut<aut_t>(pda, x, x.I); Solver::post_star<Trace_Type::Shortest>(a2);
                auto b2 = build_aut<aut_t>(pda, x, x.F); Solver::pre_star<Trace_Type::Shortest>(b2);
                if (Solver::pre_star_accepts<Trace_Type::Shortest>(u) && Solver::get_trace<Trace_Type::Shortest>(u).second != Solver::get_trace<Trace_Type::Shortest>(pda, a2, p, nat(pda, s)).second) return ALARM;
                if (Solver::post_star_accepts<Trace_Type::Shortest>(v) && Solver::get_trace<Trace_Type::Shortest>(v).second != Solver::get_trace<Trace_Type::Shortest>(pda, b2, p, nat(pda, s)).second) return ALARM;
            }
#endif
        }
        return best;
    }
#if WTYPE != 0
    if (mode == "short") {
        auto p = product(pda, x); bool r1 = Solver::post_star_accepts<Trace_Type::Shortest>(p);
        auto q = product(pda, x); bool r2 = Solver::pre_star_accepts<Trace_Type::Shortest>(q);
        auto d = product(pda, x); bool r3 = Solver::dual_search_accepts<Trace_Type::Shortest>(d);
        if (r1 != r2 || r1 != r3) return ALARM;
        if (r1) {
            auto [t1, w1] = Solver::get_trace<Trace_Type::Shortest>(p);
            auto [t2, w2] = Solver::get_trace<Trace_Type::Shortest>(q);
            auto [t3, w3] = Solver::get_trace_dual_search<Trace_Type::Shortest>(d);
            if (w1 != w2 || w2 != w3 || !run(t1) || !run(t2) || !run(t3)) return ALARM;
        }
        return best;
    }
    if (mode == "fix") {
        auto f = [&](auto tt) -> bool {
            constexpr auto T = decltype(tt)::value;
            auto p = product<TraceInfoType::Pair>(pda, x); bool r1 = Solver::post_star_fixed_point_accepts<T>(p);
            auto q = product<TraceInfoType::Pair>(pda, x); bool r2 = Solver::pre_star_fixed_point_accepts<T>(q);
            if (r1 != r2) return true;
            if (!r1) return false;
            auto [t1, w1] = Solver::get_trace<T>(p);
            auto [t2, w2] = Solver::get_trace<T>(q);
            if (is_inf<T>(w1) != is_inf<T>(w2)) return true;
            if (is_inf<T>(w1)) { best = std::max(best, 2L); return false; }
            return w1 != w2 || !run(t1) || !run(t2);
        };
#if WTYPE <= 2
        if (f(std::integral_constant<Trace_Type, Trace_Type::Longest>{})) return ALARM;
#endif
        if (f(std::integral_constant<Trace_Type, Trace_Type::ShortestFixedPoint>{})) return ALARM;
        return best;
    }
#endif
    return best;
}

int main(int argc, char** argv) {
    Args a(argc, argv);
    GenOpt o;
#if WTYPE == 2
    o.wlo = (a.mode == "fix") ? -3 : 0;
    o.whi = 4;
#elif WTYPE >= 3
    o.wdim = 2;
    o.whi = 3;
#endif
    int tries = 40; // candidates looked at for each recorded case
    for (size_t i = 0; i + 1 < a.rest.size(); ++i) if (a.rest[i] == "--tries") tries = atoi(a.rest[i + 1].c_str());
    bool exh = a.mode.rfind("x-", 0) == 0;
    std::string mode = exh ? a.mode.substr(2) : a.mode;
    return run_cases(a.lo, a.hi, 20, [&](long i) {
        Rng g(a.seed * 1000003ull + (uint64_t)i * 7919ull + 17 * WTYPE);
        Inst x;
        if (exh) { // i codes an unordered pair of rules, plus one of four automata pairs
            x.np = 2; x.nl = 2;
            long k = i;
            int a1 = k % 48; k /= 48; int a2 = k % 48; k /= 48; int au = k % 4;
            x.rules.push_back(small_rule(a1)); if (a2 != a1) x.rules.push_back(small_rule(a2));
            if (a.seed != 0) x.rules.push_back(small_rule((int)g.below(48)));
#if WTYPE != 0
            for (auto& r : x.rules) { r.w = {1 + (r.op == PUSH_) }; if (o.wdim == 2) r.w.push_back(1); }
#endif
            x.I.n = 3; x.I.e.insert({0, 0, 2}); x.I.acc = {2};
            if (au & 1) { x.F.n = 2; x.F.acc = {1}; } else { x.F.n = 3; x.F.e.insert({1, 1, 2}); x.F.acc = {2}; if (au & 2) x.F.e.insert({2, 0, 2}); }
            if (au == 3) { x.I.n = 4; x.I.e.insert({2, 1, 3}); x.I.acc = {3}; }
        } else {
            const bool small = mode == "fix", wide = mode == "lang" || mode == "cfg";
            const bool line = !small && g.chance(4), scat = g.chance(6);
            auto gen = [&]() {
                GenOpt oo = o;
                if (mode == "fix") { oo.maxp = 3; oo.maxq = 2; oo.maxr = 7; if (g.chance(10)) { oo.maxp = 4; oo.maxr = 9; } }
                else if (g.chance(10)) { oo.maxp = 6; oo.maxl = 3; oo.maxr = 20; oo.maxq = 4; }
                else if (g.chance(15)) { oo.maxl = 4; }
                if (line) return gen_line(g, oo, wide ? 10 : 30);
                Inst y = gen_inst(g, oo);
                if (scat) y = scatter(g, y, small || wide ? 9 : 40, small || wide ? 12 : 70);
#if WTYPE == 2
                if (mode == "fix" && g.chance(50)) for (auto& r : y.rules) r.w[0] = std::max(r.w[0], -1);
#endif
                return y;
            };
            // A quarter of the cases is a plain random instance; the others are the most interesting of several candidates.
            x = gen();
            if (i % 4 != 0) {
                long best = interest(x, mode, g);
                for (int k = 1; k < tries && best < 1000000; ++k) {
                    Inst y = gen();
                    long v = interest(y, mode, g);
                    if (v > best) { best = v; x = y; }
                }
            }
        }
        std::vector<std::string> want;
        if (mode == "short" || (mode == "rules" && WTYPE != 0)) want = {"min"};
        if (mode == "fix") { want = {"min"}; if (WTYPE <= 2) want.push_back("max"); }
        emit(inst_json(x, i, want));
        if (mode == "verdict") do_verdict(x);
        else if (mode == "rules") do_rules(x);
        else if (mode == "lang") do_lang(x, g);
#if WTYPE != 0
        else if (mode == "short") do_short(x);
        else if (mode == "cfg") do_cfg(x, g);
        else if (mode == "fix") do_fix(x);
#endif
    });
}
