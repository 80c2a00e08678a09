// Conformance driver for the containers: histories on every storage strategy, priority sets, worklists, helpers.
#include "common.h"
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <pdaaal/utils/fut_set.h>
#include <pdaaal/utils/more_algorithms.h>
#include <pdaaal/utils/workset.h>
#include <pdaaal/utils/flags.h>
using namespace pdaaal;
using namespace vf;
template <typename T> struct Code;
template <> struct Code<int> { static int mk(int i) { return i * 3 - 7; } static int un(int v) { return (v + 7) / 3; } };
template <> struct Code<unsigned> { static unsigned mk(int i) { return (unsigned)i; } static int un(unsigned v) { return (int)v; } };
template <> struct Code<std::string> { static std::string mk(int i) { char b[64]; snprintf(b, sizeof b, "a-key-longer-than-the-small-buffer-%04d", i); return b; }
    static int un(const std::string& s) { return s.size() < 4 ? -1 : atoi(s.c_str() + s.size() - 4); } };
template <> struct Code<std::tuple<int,std::string>> { using T = std::tuple<int,std::string>; static T mk(int i) { return {i % 5, Code<std::string>::mk(i)}; }
    static int un(const T& t) { int v = Code<std::string>::un(std::get<1>(t)); return std::get<0>(t) == v % 5 ? v : -1; } };

using Keys = std::vector<int>;
// ---- a container under test: nested levels with keys Ks..., and a value type (void for sets) ----
template <typename C, typename V, typename... Ks> struct Test {
    static constexpr int NK = sizeof...(Ks);
    static constexpr bool map = !std::is_void_v<V>;
    std::vector<C> reg;
    Rng& g; std::vector<std::string> strat; bool direct; // direct: vector_map/vector_set itself
    int range;
    Test(Rng& g, std::vector<std::string> strat, bool direct) : reg(3), g(g), strat(strat), direct(direct), range(g.chance(25) ? g.range(9, 40) : g.range(2, 7)) { if (g.chance(3)) { large = true; range = NK == 1 ? g.range(100, 900) : g.range(10, 60); } }
    bool large = false;

    template <typename F, size_t... I> static auto call_impl(const Keys& k, F&& f, std::index_sequence<I...>) { return f(Code<Ks>::mk(k[I])...); }
    template <typename F> static auto call(const Keys& k, F&& f) { return call_impl(k, f, std::index_sequence_for<Ks...>{}); }
    Keys key() { Keys k; for (int i = 0; i < NK; ++i) k.push_back(g.below(range)); return k; }

    template <int L, typename X> void list(const X& c, Keys& pre, std::vector<raw>& items, std::vector<raw>& sizes) {
        using K = std::tuple_element_t<L, std::tuple<Ks...>>;
        sizes.push_back(raw{"[" + js(pre) + "," + js((long)c.size()) + "]"});
        auto first = c.begin(), last = c.end(); if (g.chance(30)) { first = c.cbegin(); last = c.cend(); }
        for (auto it = first; it != last; ++it) {
            if constexpr (L + 1 == NK) {
                if constexpr (map) { pre.push_back(Code<K>::un(it->first)); items.push_back(raw{"[" + js(pre) + "," + js(Code<V>::un(it->second)) + "]"}); }
                else { pre.push_back(Code<K>::un(*it)); items.push_back(raw{"[" + js(pre) + ",0]"}); }
            } else { pre.push_back(Code<K>::un(it->first)); list<L + 1>(it->second, pre, items, sizes); }
            pre.pop_back();
        }
    }
    template <typename R> std::string at(const R& r) { // what an insertion returned
        using K = std::tuple_element_t<NK - 1, std::tuple<Ks...>>;
        if constexpr (map) return "[" + js(Code<K>::un(r.first->first)) + "," + js(Code<V>::un(r.first->second)) + "]";
        else return "[" + js(Code<K>::un(*r.first)) + ",0]";
    }
    void dump(int r) {
        doing("iterate");
        std::vector<raw> items, sizes; Keys pre; list<0>((const C&)reg[r], pre, items, sizes);
        emit(Obj().f("ev", "dump").f("r", r).f("items", items).f("sizes", sizes).f("empty", reg[r].empty()));
    }
    template <size_t... I> static void names(Keys& k, const std::tuple<Ks...>& t, std::index_sequence<I...>) { ((k[I] = Code<Ks>::un(std::get<I>(t))), ...); }
    // An insertion, sometimes followed by a write through the iterator it returned. Keys given as lvalues must come out unchanged.
    template <typename F> void insertion(int r, const char* ev, const Keys& k0, int v, bool lv, F&& f) {
        std::string a; bool ins = false; Keys k = k0; int nv = -1;
        auto go = [&](auto&& res) { a = at(res); ins = res.second; if constexpr (map) if (g.chance(15)) { nv = g.below(50); res.first->second = Code<V>::mk(nv); } };
        if (lv) call(k0, [&](const Ks&... ks) { f(go, ks...); names(k, std::tuple<Ks...>(ks...), std::index_sequence_for<Ks...>{}); return 0; });
        else call(k0, [&](Ks... ks) { f(go, std::move(ks)...); return 0; });
        emit(Obj().f("ev", ev).f("r", r).f("k", k).f("v", v).f("ins", ins).f("at", raw{a}));
        if (nv >= 0) emit(Obj().f("ev", "write").f("r", r).f("k", k).f("v", nv).f("ok", true));
    }
    void emplace(int r) {
        Keys k = key(); int v = map ? g.below(50) : 0; doing("emplace"); bool lv = g.chance(50), tr = g.chance(30);
        insertion(r, "emplace", k, v, lv, [&](auto& go, auto&&... ks) {
            if constexpr (map) {
                if constexpr (requires { reg[r].try_emplace(std::forward<decltype(ks)>(ks)..., Code<V>::mk(v)); }) if (tr) { go(reg[r].try_emplace(std::forward<decltype(ks)>(ks)..., Code<V>::mk(v))); return; }
                if (lv) { V val = Code<V>::mk(v); go(reg[r].emplace(std::forward<decltype(ks)>(ks)..., val)); } else go(reg[r].emplace(std::forward<decltype(ks)>(ks)..., Code<V>::mk(v)));
            } else go(reg[r].emplace(std::forward<decltype(ks)>(ks)...));
        });
    }
    void assign(int r) {
        Keys k = key(); int v = map ? g.below(50) : 0; doing("insert_or_assign"); bool lv = g.chance(50);
        if constexpr (map) insertion(r, "assign", k, v, lv, [&](auto& go, auto&&... ks) {
            if (lv) { V val = Code<V>::mk(v); go(reg[r].insert_or_assign(std::forward<decltype(ks)>(ks)..., val)); } else go(reg[r].insert_or_assign(std::forward<decltype(ks)>(ks)..., Code<V>::mk(v))); });
        else if constexpr (requires (C& c, Ks... ks) { c.insert_or_assign(ks...); }) insertion(r, "assign", k, v, lv, [&](auto& go, auto&&... ks) { go(reg[r].insert_or_assign(std::forward<decltype(ks)>(ks)...)); });
    }
    void query(int r) {
        Keys k = key();
        switch (g.below(4)) {
            case 0: { doing("contains"); bool b = call(k, [&](const Ks&... ks) { return (bool)((const C&)reg[r]).contains(ks...); });
                emit(Obj().f("ev", "contains").f("r", r).f("k", k).f("res", b)); break; }
            case 1: if constexpr (map) {
                if constexpr (requires (C& c, Ks... ks) { c.get(ks...); }) {
                    doing("get"); std::vector<int> res;
                    if (g.chance(50)) call(k, [&](const Ks&... ks) { auto p = ((const C&)reg[r]).get(ks...); if (p) res.push_back(Code<V>::un(*p)); return 0; });
                    else call(k, [&](const Ks&... ks) { auto p = reg[r].get(ks...); if (p) res.push_back(Code<V>::un(*p)); return 0; });
                    emit(Obj().f("ev", "get").f("r", r).f("k", k).f("res", res));
                } } break;
            case 2: if constexpr (map) {
                if constexpr (requires (C& c, Ks... ks) { c.get(ks...); }) {
                    int v = g.below(50); doing("get/write"); bool ok = false;
                    call(k, [&](const Ks&... ks) { auto p = reg[r].get(ks...); if (p) { *p = Code<V>::mk(v); ok = true; } return 0; });
                    emit(Obj().f("ev", "write").f("r", r).f("k", k).f("v", v).f("ok", ok));
                } } break;
            default: { // find
                doing("find"); using K = std::tuple_element_t<0, std::tuple<Ks...>>;
                std::vector<raw> items, sizes; Keys pre{k[0]}; bool ok;
                auto go = [&](auto it, auto end) {
                    ok = it != end;
                    if (!ok) return;
                    if constexpr (NK > 1) { pre[0] = Code<K>::un(it->first); list<1>(it->second, pre, items, sizes); }
                    else if constexpr (map) items.push_back(raw{"[[" + js(Code<K>::un(it->first)) + "]," + js(Code<V>::un(it->second)) + "]"});
                    else items.push_back(raw{"[[" + js(Code<K>::un(*it)) + "],0]"});
                };
                if (g.chance(50)) go(((const C&)reg[r]).find(Code<K>::mk(k[0])), ((const C&)reg[r]).end()); else go(reg[r].find(Code<K>::mk(k[0])), reg[r].end());
                emit(Obj().f("ev", "find").f("r", r).f("p", Keys{k[0]}).f("ok", ok).f("items", items));
                if constexpr (map && NK == 1) if (ok && g.chance(30)) { int v = g.below(50); reg[r].find(Code<K>::mk(k[0]))->second = Code<V>::mk(v); emit(Obj().f("ev", "write").f("r", r).f("k", k).f("v", v).f("ok", true)); }
            }
        }
    }
    void special(int r) { // only for sorted vectors themselves
        using K = std::tuple_element_t<0, std::tuple<Ks...>>;
        if constexpr (NK == 1 && requires (C& c, K k) { c.lower_bound(k); c[0]; c.resize(0); }) {
            int n = (int)reg[r].size();
            switch (g.below(6)) {
                case 0: case 1: if (n) { int i = g.below(n); doing("operator[]"); std::string s;
                    if constexpr (map) s = "[[" + js(Code<K>::un(reg[r][i].first)) + "]," + js(Code<V>::un(((const C&)reg[r])[i].second)) + "]"; else s = "[[" + js(Code<K>::un(reg[r][i])) + "],0]";
                    emit(Obj().f("ev", "at").f("r", r).f("i", i).f("res", raw{s})); } break;
                case 2: case 3: case 4: { Keys k{(int)g.below(range + 1)}; doing("lower_bound"); auto it = reg[r].lower_bound(Code<K>::mk(k[0]));
                    emit(Obj().f("ev", "lower").f("r", r).f("k", k).f("res", (int)(it - ((const C&)reg[r]).begin()))); break; }
                default: { int m = g.range(n / 2, n); doing("resize"); reg[r].resize(m); emit(Obj().f("ev", "resize").f("r", r).f("n", m)); }
            }
        }
    }
    void transfer(int r) {
        int s = g.below(3); if (s == r) { if (g.chance(30)) { doing("clear"); reg[r].clear(); emit(Obj().f("ev", "clear").f("r", r)); } return; }
        switch (g.below(4)) {
            case 0: { doing("copy construct"); C c(reg[s]); reg[r] = std::move(c); emit(Obj().f("ev", "copy").f("r", r).f("s", s)); break; }
            case 1: { doing("copy assign"); reg[r] = reg[s]; emit(Obj().f("ev", "copy").f("r", r).f("s", s)); break; }
            case 2: { doing("move"); reg[r] = std::move(reg[s]); reg[s].clear(); emit(Obj().f("ev", "move").f("r", r).f("s", s)); break; }
            default: convert(r, s);
        }
    }
    // From an unordered container with the elements of register s: the conversion constructors.
    void convert(int r, int s) {
        if constexpr (NK == 1) {
            using K = std::tuple_element_t<0, std::tuple<Ks...>>;
            bool mv = g.chance(50);
            if constexpr (map) {
                using U = std::unordered_map<K,V,absl::Hash<K>>;
                if constexpr (requires (U u) { C(u); }) {
                    U u; for (auto& e : reg[s]) u.emplace(e.first, e.second);
                    doing("convert"); if (mv) { C c(std::move(u)); reg[r] = c; } else { C c((const U&)u); reg[r] = c; if (u.size() != reg[s].size()) reg[r].clear(); }
                    emit(Obj().f("ev", "copy").f("r", r).f("s", s)); return;
                }
                using FH = fut::set<std::tuple<K,V>, fut::type::hash>;
                if constexpr (requires (FH u) { C(u); } && !std::is_same_v<C,FH>) {
                    FH u; for (auto& e : reg[s]) u.emplace(e.first, e.second);
                    doing("convert"); if (mv) { C c(std::move(u)); reg[r] = c; } else { C c((const FH&)u); reg[r] = c; }
                    emit(Obj().f("ev", "copy").f("r", r).f("s", s)); return;
                }
            } else {
                using U = std::unordered_set<K,absl::Hash<K>>;
                if constexpr (requires (U u) { C(u); }) {
                    U u; for (auto& e : reg[s]) u.emplace(e);
                    doing("convert"); if (mv) { C c(std::move(u)); reg[r] = c; } else { C c((const U&)u); reg[r] = c; }
                    emit(Obj().f("ev", "copy").f("r", r).f("s", s)); return;
                }
            }
        }
    }
    void run(long c) {
        emit(Obj().f("ev", "new").f("case", c).f("strat", strat));
        int n = large ? g.range(400, 1500) : g.chance(20) ? g.range(60, 150) : g.range(5, 40);
        for (int i = 0; i < n; ++i) {
            int r = g.below(3), x = g.below(100);
            if (x < 35) emplace(r); else if (x < 45) assign(r); else if (x < 75) query(r); else if (x < 83) special(r); else if (x < 90) { if (!large || g.chance(5)) transfer(r); } else if (!large || g.chance(5)) dump(r);
        }
        for (int r = 0; r < 3; ++r) dump(r);
    }
};
template <typename Comp, bool mx, typename W> void prio(long c, Rng& g, std::function<W(int)> mk, std::function<std::string(const W&)> un) {
    emit(Obj().f("ev", "new").f("case", c).f("strat", std::vector<std::string>{"v"}));
    priority_set<W, size_t, Comp> q; bool big = g.chance(5); int n = big ? g.range(100, 500) : g.range(5, 40), range = big ? g.range(20, 200) : g.range(2, 10), wr = big ? g.range(12, 200) : g.range(1, 12);
    for (int i = 0; i < n; ++i) {
        int x = g.below(100);
        if (x < 50) { size_t e = g.below(range); W w = mk(g.below(wr)); doing("emplace"); if (g.chance(50)) q.emplace(w, e); else q.emplace(W(w), e); emit(Obj().f("ev", "padd").f("w", raw{un(w)}).f("e", (long)e)); }
        else if (x < 60 || q.empty()) emit(Obj().f("ev", "pempty").f("res", q.empty()));
        else { doing("pop"); auto t = q.top(); auto b = q.back(); if (b != t.second) b = 999; if (g.chance(50)) q.pop(); else q.pop_back(); emit(Obj().f("ev", "ppop").f("max", mx).f("w", raw{un(t.first)}).f("e", (long)b)); }
    }
    while (!q.empty()) { doing("pop"); auto t = q.top(); q.pop(); emit(Obj().f("ev", "ppop").f("max", mx).f("w", raw{un(t.first)}).f("e", (long)t.second)); }
    emit(Obj().f("ev", "pempty").f("res", q.empty()));
}
template <bool set> struct Work : fixed_point_workset<Work<set>, int, set> {
    using P = fixed_point_workset<Work<set>, int, set>;
    std::vector<std::vector<int>> succ; std::vector<int> budget; int stop_at; int steps = 0; std::vector<std::string> log;
    explicit Work(size_t limit) : P(limit) {}
    Work() = default;
    void start(const std::vector<int>& s) { for (int x : s) this->emplace(x); }
    void limit(size_t n) { this->set_round_limit(n); }
    template <bool bottom> bool step_with(int e) {
        std::vector<int> add; bool go = ++steps != stop_at;
        if (go && budget[e] > 0) { --budget[e]; for (int x : succ[e]) { add.push_back(x); this->emplace(x); } }
        log.push_back(Obj().f("ev", "wstep").f("e", e).f("bottom", bottom).f("add", add).f("go", go).str());
        return go;
    }
};
template <bool set> void work(long c, Rng& g) {
    emit(Obj().f("ev", "new").f("case", c).f("strat", std::vector<std::string>{"v"}));
    int n = g.range(1, 6), limit = g.range(0, 5); bool ctor = g.chance(50);
    Work<set> w(ctor ? limit : 0); if (!ctor) w.limit(limit);
    w.succ.resize(n); w.budget.resize(n);
    for (int i = 0; i < n; ++i) { w.budget[i] = g.chance(30) ? 0 : g.range(1, 6); for (int j = 0; j < n; ++j) if (g.chance(35)) { w.succ[i].push_back(j); if (g.chance(20)) w.succ[i].push_back(j); } }
    w.stop_at = g.chance(15) ? g.range(1, 10) : -1;
    std::vector<int> s; int m = g.range(0, 4); for (int i = 0; i < m; ++i) s.push_back(g.below(n));
    w.start(s);
    emit(Obj().f("ev", "wnew").f("limit", limit).f("set", set).f("start", s));
    doing("run");
    if (g.chance(50)) w.run(); else { while (!w.done()) w.step(); w.finalize(); }
    for (auto& x : w.log) emit(x);
    emit(Obj().f("ev", "wend"));
}
template <size_t N, size_t... I> static std::vector<typename utils::flags<N>::flag_t> consts(bool single, std::index_sequence<I...>) { // the compile-time versions
    return single ? std::vector<typename utils::flags<N>::flag_t>{utils::flags<N>::template flag<I>()...} : std::vector<typename utils::flags<N>::flag_t>{utils::flags<N>::template fill<I>()...}; }
template <size_t N> void flag(long c, Rng& g) {
    using F = utils::flags<N>; using T = typename F::flag_t;
    auto mask = [](const std::set<int>& s) { T m = 0; for (int i : s) F::add(m, F::flag((size_t)i)); return m; };
    auto un = [](T m) { std::vector<int> r; for (size_t i = 0; i < sizeof(T) * 8; ++i) if (((uint64_t)m >> i) & 1) r.push_back((int)i + 1); return r; };
    std::set<int> a, b; int pa = g.range(0, 100), pb = g.range(0, 60);
    for (int i = 1; i <= (int)N; ++i) { if (g.chance(pa)) a.insert(i); if (g.chance(pb) && (g.chance(30) || a.count(i))) b.insert(i); }
    if (g.chance(30)) { b.clear(); b.insert(g.range(1, N)); } if (g.chance(20)) { a.clear(); a.insert(g.range(1, N)); }
    int n = g.chance(20) ? N : g.range(0, N);
    doing("flags");
    T ma = mask(a), mb = mask(b), x = ma, y = ma; F::add(x, mb); F::remove(y, mb);
    utils::flag_mask<N> fm(ma); bool needs = fm.needs_flag(mb); fm.got_flag(mb);
    std::vector<int> miss; for (T f : fm.get_missing_flags()) { auto v = un(f); miss.push_back(v.size() == 1 ? v[0] : 99); }
    emit(Obj().f("ev", "flags").f("case", c).f("a", std::vector<int>(a.begin(), a.end())).f("b", std::vector<int>(b.begin(), b.end())).f("n", n)
         .f("added", un(x)).f("removed", un(y)).f("selected", un(F::select(ma, mb))).f("contains", F::contains(ma, mb)).f("single", F::is_single_flag(ma))
         .f("fill", un(F::fill((size_t)n))).f("flag", un(F::flag((size_t)n))).f("cfill", un(consts<N>(false, std::make_index_sequence<N + 1>{})[n])).f("cflag", un(consts<N>(true, std::make_index_sequence<N + 1>{})[n])).f("split", [&] { std::vector<int> r; for (T f : F::split_to_single_flags(ma)) { auto v = un(f); r.push_back(v.size() == 1 ? v[0] : 99); } return r; }()).f("needs", needs).f("missing", miss).f("any", fm.has_missing_flags()));
}
void disjoint(long c, Rng& g) {
    std::set<int> a, b; int r = g.range(2, 20), n = g.range(0, 8), m = g.range(0, 8); bool par = g.chance(50);
    for (int i = 0; i < n; ++i) a.insert(par ? 2 * g.below(r) : g.below(r)); for (int i = 0; i < m; ++i) b.insert(par ? 2 * g.below(r) + 1 : g.below(r));
    if (par && g.chance(50)) { int x = g.below(2 * r); a.insert(x); b.insert(x); }
    std::vector<int> va(a.begin(), a.end()), vb(b.begin(), b.end()); bool res; doing("is_disjoint");
    if (g.chance(40)) res = is_disjoint(va, vb);
    else { std::vector<std::pair<int,int>> pa; for (int x : va) pa.emplace_back(x, g.below(9)); if (g.chance(50)) { std::vector<std::pair<int,int>> pb; for (int x : vb) pb.emplace_back(x, g.below(9)); res = is_disjoint(pa, pb, CompFirst<int,int>{}); } else res = is_disjoint(pa, vb, CompFirst<int,int>{}); }
    emit(Obj().f("ev", "disjoint").f("case", c).f("a", va).f("b", vb).f("res", res));
}
using S = std::string;
constexpr auto H = fut::type::hash; constexpr auto V = fut::type::vector;
template <typename... A> using T = std::tuple<A...>;
#define GO(C, VAL, ST, D, ...) { Test<C, VAL, __VA_ARGS__> t(g, ST, D); t.run(c); }
int main(int argc, char** argv) {
    Args a(argc, argv);
    return run_cases(a.lo, a.hi, 20, [&](long c) {
        Rng g(a.seed * 1000003 + c);
        using Y = std::vector<S>;
        if (a.mode == "queue") {
            switch (g.below(8)) {
                case 0: prio<std::less<int>, true, int>(c, g, [](int i) { return i; }, [](const int& w) { return "[" + js(w) + "]"; }); break;
                case 1: prio<CompSwapArgs<int>, false, int>(c, g, [](int i) { return i - 4; }, [](const int& w) { return "[" + js(w) + "]"; }); break;
                case 2: { using A = std::array<int,2>; prio<CompSwapArgs<A>, false, A>(c, g, [](int i) { return A{i % 3, i / 3}; }, [](const A& w) { return js(w); }); break; }
                case 3: case 4: work<true>(c, g); break; case 5: work<false>(c, g); break;
                case 6: disjoint(c, g); break;
                default: switch (g.below(6)) { case 0: flag<3>(c, g); break; case 1: flag<8>(c, g); break; case 2: flag<9>(c, g); break; case 3: flag<16>(c, g); break; case 4: flag<32>(c, g); break; default: flag<64>(c, g); }
            }
            return;
        }
        auto mk = [&](auto... x) { return Y{x...}; };
        switch (g.below(24)) {
            case 0: { using C = fut::vector_map<int,int>; GO(C, int, mk("v"), true, int); break; }
            case 1: { using C = fut::vector_map<S,int>; GO(C, int, mk("v"), true, S); break; }
            case 2: { using C = fut::vector_set<int>; GO(C, void, mk("v"), true, int); break; }
            case 3: { using C = fut::vector_set<S>; GO(C, void, mk("v"), true, S); break; }
            case 4: { using C = fut::set<T<int,int>,H>; GO(C, int, mk("h"), false, int); break; }
            case 5: { using C = fut::set<T<int,int>,V>; GO(C, int, mk("v"), false, int); break; }
            case 6: { using C = fut::set<T<S,S>,V>; GO(C, S, mk("v"), false, S); break; }
            case 7: { using C = fut::set<T<int,S,int>,H,V>; GO(C, int, mk("h","v"), false, int, S); break; }
            case 8: { using C = fut::set<T<int,S,int>,V,H>; GO(C, int, mk("v","h"), false, int, S); break; }
            case 9: { using C = fut::set<T<unsigned,unsigned,S>,H,H>; GO(C, S, mk("h","h"), false, unsigned, unsigned); break; }
            case 10: { using C = fut::set<T<S,unsigned,int>,V,V>; GO(C, int, mk("v","v"), false, S, unsigned); break; }
            case 11: { using C = fut::set<T<int,int>,H,V>; GO(C, void, mk("h","v"), false, int, int); break; }
            case 12: { using C = fut::set<T<S,int>,V,H>; GO(C, void, mk("v","h"), false, S, int); break; }
            case 13: { using C = fut::set<T<int,S>,V,V>; GO(C, void, mk("v","v"), false, int, S); break; }
            case 14: { using C = fut::set<T<int,int>,H,H>; GO(C, void, mk("h","h"), false, int, int); break; }
            case 15: { using C = fut::set<T<int,unsigned,int>,V,H,V>; GO(C, void, mk("v","h","v"), false, int, unsigned, int); break; }
            case 16: { using C = fut::set<T<int,int,S>,H,V,H>; GO(C, void, mk("h","v","h"), false, int, int, S); break; }
            case 17: { using C = fut::set<T<int,int,int>,V,V,V>; GO(C, void, mk("v","v","v"), false, int, int, int); break; }
            case 18: { using C = fut::set<T<int,int,S,int>,H,H,V>; GO(C, int, mk("h","h","v"), false, int, int, S); break; }
            case 19: { using C = fut::set<T<S,int,int,S>,V,V,H>; GO(C, S, mk("v","v","h"), false, S, int, int); break; }
            case 20: { using C = fut::set<T<int>,V>; GO(C, void, mk("v"), false, int); break; }
            case 21: { using C = fut::set<T<S>,H>; GO(C, void, mk("h"), false, S); break; }
            case 22: { using C = fut::set<T<int,S,int,S>,H,V>; using W = std::tuple<int,S>; GO(C, W, mk("h","v"), false, int, S); break; }
            default: { using C = fut::set<T<int,S,int,S>,V,H>; using W = std::tuple<int,S>; GO(C, W, mk("v","h"), false, int, S); break; }
        }
    });
}
