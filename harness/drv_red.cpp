// Conformance driver for the top-of-stack reduction.
#include "common.h"
#include "instance.h"
#include <pdaaal/PDA.h>
#include <pdaaal/internal/Reducer.h>
using namespace pdaaal;
using namespace vf;
static const char* OPN(op_t o) { switch (o) { case PUSH: return "push"; case POP: return "pop"; case SWAP: return "swap"; case NOOP: return "noop"; } return "?"; }
struct RR { int from, to; op_t op; int opl; bool wild; std::vector<int> pre; int w; };
struct Sys { int np, nl, init, term; std::vector<RR> rs; std::vector<raw> runs; };
static raw RJ(int from, int pre, op_t op, int opl, int to, int w) { return Obj().f("from", from).f("pre", pre).f("op", OPN(op)).f("opl", op == PUSH || op == SWAP ? opl : -1).f("to", to).f("w", w).r(); }
template <typename W> static void apply(long c, Sys& S, int f, int level) {
    static const char* fn[] = {"reduce", "forwards", "backwards", "target"};
    doing(fn[f]);
    std::unordered_set<char> all; for (int i = 0; i < S.nl; ++i) all.insert((char)('a' + i));
    PDA<char, W> pda(all);
    std::vector<raw> before;
    for (auto& r : S.rs) {
        std::vector<char> pre; for (int x : r.pre) pre.push_back((char)('a' + x));
        if constexpr (is_weighted<W>) pda.add_rule(r.from, r.to, r.op, (char)('a' + r.opl), r.wild, pre, r.w); else pda.add_rule(r.from, r.to, r.op, (char)('a' + r.opl), r.wild, pre);
        std::vector<int> p = r.pre; if (r.wild) { p.clear(); for (int i = 0; i < S.nl; ++i) p.push_back(i); }
        for (int x : p) before.push_back(RJ(r.from, x, r.op, r.opl, r.to, r.w));
    }
    for (int i = 0; i < S.np; ++i) pda.insert_state(i);
    std::pair<size_t, size_t> res{0, 0};
    internal::PDA<W>& base = pda;
    switch (f) { case 0: res = internal::Reducer::reduce(base, level, S.init, S.term); break; case 1: internal::Reducer::forwards_prune(base, S.init); break; case 2: internal::Reducer::backwards_prune(base, S.term); break; default: internal::Reducer::target_tos_prune(base, S.term); }
    std::vector<raw> after;
    size_t s = 0;
    for (auto& st : pda.states()) { for (auto& [r, ls] : st._rules) { int w = 0; if constexpr (is_weighted<W>) w = (int)r._weight; for (int i = 0; i < S.nl; ++i) if (ls.contains(i)) after.push_back(RJ((int)s, i, r._operation, (int)r._op_label, (int)r._to, w)); } ++s; }
    emit(Obj().f("ev", "reduce").f("case", c).f("fn", fn[f]).f("level", level).f("np", S.np).f("nl", S.nl).f("init", S.init).f("term", S.term).f("before", before).f("after", after).f("size", res).f("states", (long)pda.states().size()).f("runs", S.runs));
}
// Small systems: the specification computes which rules are useful.
template <typename W> static void one(long c, Rng& g) {
    int np = g.range(2, 6), nl = g.range(1, 4), init = g.below(np), term = g.chance(3) ? init : (init + 1 + g.below(np - 1)) % np;
    std::vector<RR> rs;
    auto labels = [&](RR& r, int wp) { r.wild = g.chance(wp); r.pre.clear(); if (!r.wild) { std::set<int> s; int k = g.chance(60) ? 1 : g.range(1, nl); for (int i = 0; i < k; ++i) s.insert(g.below(nl)); r.pre.assign(s.begin(), s.end()); } };
    int ni = g.range(1, 3);
    for (int i = 0; i < ni; ++i) { RR r; r.from = init; r.to = g.below(np); if (r.to == term && g.chance(80)) r.to = init; r.op = PUSH; r.opl = g.below(nl); r.w = g.below(3); labels(r, 70); rs.push_back(r); }
    int n = g.range(2, g.chance(30) ? 14 : 9), bias = g.below(4), wp = g.chance(50) ? 15 : 0;
    for (int i = 0; i < n; ++i) {
        RR r; r.from = g.below(np); if (r.from == init) r.from = (init + 1) % np; if (r.from == term && g.chance(70)) r.from = (r.from + 1) % np; if (r.from == init) continue;
        r.to = g.below(np); if (i == 0) r.to = term;
        int o = g.below(10); if (bias == 1 && g.chance(50)) o = 0; if (bias == 2 && g.chance(50)) o = 4; if (bias == 3 && g.chance(40)) o = 9;
        r.op = o < 3 ? PUSH : o < 6 ? POP : o < 8 ? SWAP : NOOP; r.opl = g.below(nl); r.w = g.below(3); labels(r, wp); rs.push_back(r);
    }
    int what = g.below(10), level = what < 8 ? g.below(5) : 0;
    int f = what < 8 ? 0 : 1 + g.below(3);
    if constexpr (!is_weighted<W>) for (auto& r : rs) r.w = 0;
    Sys S{np, nl, init, term, rs, {}};
    apply<W>(c, S, f, level);
}
// Larger systems made of accepting runs: every rule of a run is useful.
template <typename W> static void two(long c, Rng& g) {
    Sys S; S.np = g.range(4, g.chance(30) ? 30 : 12); S.nl = g.range(2, g.chance(40) ? 14 : 6); S.init = g.below(S.np); S.term = (S.init + 1 + g.below(S.np - 1)) % S.np;
    int nruns = g.range(1, 4), len = g.range(3, 25), reuse = g.below(60), wild = g.chance(40) ? g.below(40) : 0, multi = g.chance(40) ? g.below(60) : 0, fresh = g.chance(40) ? 80 : 0;
    int next = 0;
    auto st = [&]() { for (;;) { int s = g.chance(fresh) ? next++ % S.np : g.below(S.np); if (s != S.init && s != S.term) return s; } };
    auto pre = [&](RR& r, int top) { r.wild = g.chance(wild); r.pre.clear(); if (r.wild) return; std::set<int> s{top}; if (g.chance(multi)) for (int k = g.range(1, S.nl); k > 0; --k) s.insert(g.below(S.nl)); r.pre.assign(s.begin(), s.end()); };
    auto w = [&]() { return is_weighted<W> ? (int)g.below(3) : 0; };
    for (int k = 0; k < nruns; ++k) {
        std::vector<raw> run; std::vector<int> stack;
        RR r; r.from = S.init; r.to = st(); r.op = PUSH; r.opl = g.below(S.nl); r.w = w(); r.wild = g.chance(70); if (!r.wild) r.pre = {(int)g.below(S.nl)};
        S.rs.push_back(r); run.push_back(RJ(r.from, r.wild ? 0 : r.pre[0], r.op, r.opl, r.to, r.w));
        stack.push_back(r.opl); int p = r.to;
        int up = g.range(1, len);
        for (int i = 0; i < len && !stack.empty(); ++i) {
            int top = stack.back(); const RR* use = nullptr; RR nr;
            if (g.chance(reuse)) { std::vector<const RR*> can; for (auto& x : S.rs) if (x.from == p && x.to != S.term && (x.wild || std::count(x.pre.begin(), x.pre.end(), top)) && (x.op != POP || stack.size() > 1)) can.push_back(&x); if (!can.empty()) use = can[g.below((int)can.size())]; }
            if (!use) {
                nr.from = p; nr.to = i + 1 == len ? S.term : st(); nr.opl = g.below(S.nl); nr.w = w(); pre(nr, top);
                int o = g.below(10); bool grow = i < up;
                nr.op = o < (grow ? 5 : 2) ? PUSH : o < 7 ? POP : o < 9 ? SWAP : NOOP;
                if (nr.op == POP && stack.size() == 1) { if (i + 2 < len) nr.op = PUSH; else nr.to = S.term; }
                S.rs.push_back(nr); use = &S.rs.back();
            }
            run.push_back(RJ(p, top, use->op, use->opl, use->to, use->w));
            switch (use->op) { case POP: stack.pop_back(); break; case SWAP: stack.back() = use->opl; break; case PUSH: stack.push_back(use->opl); break; default: break; }
            p = use->to; if (p == S.term) break;
        }
        if (p != S.term && !stack.empty()) { RR e; e.from = p; e.to = S.term; e.op = g.chance(50) ? POP : NOOP; e.opl = 0; e.w = w(); pre(e, stack.back()); S.rs.push_back(e); run.push_back(RJ(p, stack.back(), e.op, e.opl, e.to, e.w)); p = S.term; }
        if (p == S.term) S.runs.push_back(raw{js(run)});
    }
    for (int k = g.below(6); k > 0; --k) { RR r; r.from = st(); r.to = g.below(S.np); if (r.to == S.init) r.to = S.term; r.opl = g.below(S.nl); r.w = w(); r.op = g.chance(30) ? PUSH : g.chance(40) ? POP : g.chance(50) ? SWAP : NOOP; pre(r, g.below(S.nl)); S.rs.push_back(r); }
    for (size_t i = S.rs.size(); i > 1; --i) std::swap(S.rs[i - 1], S.rs[g.below((int)i)]);
    if (g.chance(10)) apply<W>(c, S, 1 + g.below(3), 0); else { int l = g.range(1, 4); apply<W>(c, S, 0, l); }
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    return run_cases(a.lo, a.hi, 20, [&](long c) { Rng g(a.seed * 1000003 + c); bool run = a.mode == "run"; if (g.chance(75)) run ? two<weight<void>>(c, g) : one<weight<void>>(c, g); else run ? two<weight<uint32_t>>(c, g) : one<weight<uint32_t>>(c, g); });
}
