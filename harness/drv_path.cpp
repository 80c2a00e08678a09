// Conformance driver for AutomatonPath: histories on a few registers.
#include "common.h"
#include <tuple>
#include <optional>
#include <absl/hash/hash.h>
#include <pdaaal/AutomatonPath.h>
using namespace pdaaal;
using namespace vf;
// Numbers near the ends of the types are recorded as small ones: labels 2^32-1-i as -1-i, states 2^40+i as 1000+i, 2^64-1-i as -1-i.
static std::string jl(uint32_t l) { return l > 0xfffffff0u ? std::to_string(-1 - (int)(0xffffffffu - l)) : std::to_string(l); }
static constexpr size_t BIG = (size_t)1 << 40;
static std::string jst(size_t s) { return std::to_string(s > (size_t)-100 ? -1 - (long)((size_t)-1 - s) : s >= BIG ? 1000 + (long)((s - BIG) % 100000) : (long)(s % 100000)); }
static std::string jst(const std::pair<size_t,size_t>& s) { return "[" + jst(s.first) + "," + jst(s.second) + "]"; }
template <typename P> std::string obs(const P& p) {
    doing("observe");
    Obj o; o.f("null", p.is_null()).f("empty", p.empty()).f("size", (long)p.edges_size());
    if (!p.is_null()) o.f("front", raw{jst(p.front_state())});
    if (!p.empty()) { auto e = p.front_edge(); o.f("edge", raw{"[" + jst(std::get<0>(e)) + "," + jl(std::get<1>(e)) + "," + jst(std::get<2>(e)) + "]"}); }
    std::vector<raw> st; for (auto x : p.stack()) st.push_back(raw{jl(x)}); o.f("stack", st);
    auto [path, stack] = p.get_path_and_stack();
    std::vector<raw> a, b; for (auto& x : path) a.push_back(raw{jst(x)}); for (auto x : stack) b.push_back(raw{jl(x)});
    o.f("path", a).f("pstack", b);
    return o.str();
}
template <bool pair> struct Sess {
    using P = AutomatonPath<pair>; using S = std::conditional_t<pair, std::pair<size_t,size_t>, size_t>;
    Rng& g; int ns, nl; std::vector<std::optional<P>> reg;
    Sess(Rng& g) : g(g), ns(g.range(1, 5)), nl(g.range(1, 4)), reg(3) {}
    size_t one() { size_t s = g.below(ns); return g.chance(8) ? BIG + s : g.chance(3) ? (size_t)-2 - s : s; }
    S state() { if constexpr (pair) return S(g.chance(4) ? (size_t)-1 : one(), one()); else return one(); }
    uint32_t label() { return g.chance(12) ? 0xffffffffu : g.chance(6) ? 0xfffffffeu : g.below(nl); }
    static bool bad(const P& p) { if constexpr (pair) { auto [a, b] = p.get_path_and_stack(); for (auto& s : a) if (s.first == (size_t)-1) return true; } return false; }
    void run(long c) {
        emit(Obj().f("ev", "new").f("case", c).f("pair", pair));
        bool deep = g.chance(4); int n = deep ? g.range(300, 900) : g.range(5, 60);
        for (int i = 0; i < n; ++i) {
            int r = g.below(3);
            int x = g.below(100);
            if (deep && x < 12 && reg[r] && !g.chance(3)) x = 20; // deep stacks: rarely start again
            if (deep && x >= 45 && g.chance(60)) x = 20;
            if (!reg[r] || x < 12) {
                switch (g.below(4)) {
                    case 0: reg[r].emplace(); emit(Obj().f("ev", "null").f("r", r)); break;
                    case 1: { S s = state(); if constexpr (pair) if (s.first == (size_t)-1) s.first = 0; reg[r].emplace(s); emit(Obj().f("ev", "start").f("r", r).f("end", raw{jst(s)})); break; }
                    default: { int m = deep && g.chance(30) ? g.range(30, 150) : g.range(0, 6); std::vector<S> path; std::vector<uint32_t> stack; for (int j = 0; j <= m; ++j) path.push_back(state()); for (int j = 0; j < m; ++j) stack.push_back(label());
                        doing("build"); reg[r].emplace(path, stack); std::vector<raw> a, b; for (auto& y : path) a.push_back(raw{jst(y)}); for (auto y : stack) b.push_back(raw{jl(y)});
                        emit(Obj().f("ev", "build").f("r", r).f("path", a).f("stack", b)); }
                }
                continue;
            }
            P& p = *reg[r];
            if (x < 45) { if (p.is_null()) continue; uint32_t lb = label(); S s = state(); if (lb == std::numeric_limits<uint32_t>::max()) s = p.front_state(); // epsilon edges are self loops here
                doing("emplace"); p.emplace(s, lb); emit(Obj().f("ev", "push").f("r", r).f("from", raw{jst(s)}).f("label", raw{jl(lb)})); }
            else if (x < 58) { if (p.empty()) continue; doing("pop"); p.pop(); emit(Obj().f("ev", "pop").f("r", r)); }
            else if (x < 64) { if (!p.empty() && std::get<1>(p.front_edge()) == std::numeric_limits<uint32_t>::max() && std::get<0>(p.front_edge()) != std::get<2>(p.front_edge())) continue; doing("remove_epsilon"); p.remove_epsilon(); emit(Obj().f("ev", "noeps").f("r", r)); }
            else if (x < 72) { int s = g.below(3); if (!reg[s] || s == r) continue; doing("copy"); if (g.chance(50)) *reg[r] = *reg[s]; else { P t(*reg[s]); reg[r].emplace(std::move(t)); } emit(Obj().f("ev", "copy").f("r", r).f("s", s)); }
            else if (x < 80) { int s = g.below(3); if (!reg[s]) continue; doing("=="); emit(Obj().f("ev", "equal").f("r", r).f("s", s).f("eq", *reg[r] == *reg[s]).f("ne", *reg[r] != *reg[s]).f("hash", absl::Hash<P>{}(*reg[r]) == absl::Hash<P>{}(*reg[s]))); }
            else if (x < 86) { if constexpr (pair) { if (p.is_null()) continue; if (bad(p)) continue; doing("split"); auto [a, b] = p.split(); emit(Obj().f("ev", "split").f("r", r).f("o1", raw{obs(a)}).f("o2", raw{obs(b)})); } }
            else emit(Obj().f("ev", "obs").f("r", r).f("o", raw{obs(p)}));
        }
        for (int r = 0; r < 3; ++r) if (reg[r]) emit(Obj().f("ev", "obs").f("r", r).f("o", raw{obs(*reg[r])}));
        // Rebuilding a path from what it reports gives an equal path (when it has no epsilon edges).
        for (int r = 0; r < 3; ++r) if (reg[r] && !reg[r]->is_null()) {
            auto [path, stack] = reg[r]->get_path_and_stack(); int s = (r + 1) % 3; doing("rebuild");
            reg[s].emplace(path, stack); std::vector<raw> a, b; for (auto& y : path) a.push_back(raw{jst(y)}); for (auto y : stack) b.push_back(raw{jl(y)});
            emit(Obj().f("ev", "build").f("r", s).f("path", a).f("stack", b));
            emit(Obj().f("ev", "equal").f("r", r).f("s", s).f("eq", *reg[r] == *reg[s]).f("ne", *reg[r] != *reg[s]).f("hash", absl::Hash<P>{}(*reg[r]) == absl::Hash<P>{}(*reg[s])));
            break;
        }
    }
};
int main(int argc, char** argv) {
    Args a(argc, argv);
    return run_cases(a.lo, a.hi, 20, [&](long c) { Rng g(a.seed * 1000003 + c); if (g.chance(50)) { Sess<false> s(g); s.run(c); } else { Sess<true> s(g); s.run(c); } });
}
