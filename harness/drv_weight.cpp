// Conformance driver for weights: sums and comparisons of every weight type, and weight functions.
#include "common.h"
#include <pdaaal/Weight.h>
#include <sstream>
#include <memory>
using namespace pdaaal;
using namespace vf;
using i128 = __int128;

// A number v is recorded as [a,k] with v = a*U + k; 8-bit numbers with a = 0.
template <typename T> struct Enc {
    static constexpr int bits = sizeof(T) * 8;
    static i128 U() { return (i128)1 << (bits - 2); }
    static std::string enc(T v) {
        if (bits == 8) return "[0," + std::to_string((int)v) + "]";
        i128 x = (i128)v, u = U(), a = (x >= 0 ? (x + u / 2) / u : -((-x + u / 2) / u)), k = x - a * u;
        if (k > 1000000) k = 1000000; if (k < -1000000) k = -1000000;
        return "[" + std::to_string((long)a) + "," + std::to_string((long)k) + "]";
    }
    static std::string type() {
        return Obj().f("signed", std::numeric_limits<T>::is_signed).f("lo", raw{enc(std::numeric_limits<T>::min())}).f("hi", raw{enc(std::numeric_limits<T>::max())}).str();
    }
    static T rnd(Rng& g, int mix) { // mix: 0 everything, 1 small values only
        i128 u = U(), lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(), v;
        int sm = g.range(-4, 4);
        if (bits == 8 && g.chance(30)) { v = g.range(0, 255) + lo; return (T)v; }
        switch (mix == 1 ? 9 : g.below(12)) {
            case 0: v = lo; break;
            case 1: v = hi; break;
            case 2: v = hi - g.range(0, 3); break;
            case 3: v = lo + g.range(0, 3); break;
            case 4: v = u + sm; break;
            case 5: v = -u + sm; break;
            case 6: v = 2 * u + sm; break;
            case 7: v = 3 * u + sm; break;
            case 8: v = 0; break;
            default: v = g.range(-30, 30);
        }
        if (v < lo) v = -v; if (v > hi) v = hi - g.range(0, 3); if (v < lo) v = lo;
        return (T)v;
    }
};
template <typename W> struct Kind { using T = W; static constexpr const char* k = "num"; static constexpr int n = 0; static std::string enc(const W& w) { return Enc<W>::enc(w); } static W rnd(Rng& g, int mix) { return Enc<W>::rnd(g, mix); } };
template <typename W, size_t N> struct Kind<std::array<W,N>> { using T = W; static constexpr const char* k = "arr"; static constexpr int n = N;
    static std::string enc(const std::array<W,N>& w) { std::vector<raw> r; for (auto x : w) r.push_back(raw{Enc<W>::enc(x)}); return js(r); }
    static std::array<W,N> rnd(Rng& g, int mix) { std::array<W,N> a; bool sm = g.chance(40); for (auto& x : a) x = g.chance(15) ? (W)0 : Enc<W>::rnd(g, sm ? 1 : mix); return a; } };
template <typename W> struct Kind<std::vector<W>> { using T = W; static constexpr const char* k = "vec"; static constexpr int n = 0;
    static std::string enc(const std::vector<W>& w) { std::vector<raw> r; for (auto x : w) r.push_back(raw{Enc<W>::enc(x)}); return js(r); }
    static std::vector<W> rnd(Rng& g, int mix) { std::vector<W> a(g.chance(8) ? g.range(5, 12) : g.below(5)); bool sm = g.chance(60); for (auto& x : a) x = g.chance(25) ? (W)0 : Enc<W>::rnd(g, sm ? 1 : mix); return a; } };

template <typename W, bool maxi> struct Tester {
    using K = Kind<W>; using T = typename K::T;
    using A = std::conditional_t<maxi, max_weight<W>, min_weight<W>>;
    static Obj head(const char* ev, long c) { return Obj().f("ev", ev).f("case", c).f("k", K::k).f("t", raw{Enc<T>::type()}).f("maxi", maxi).f("n", K::n); }
    static void row(long c, const W& x, const std::vector<W>& ys) {
        std::vector<raw> y, a, d; std::vector<int> unused; std::string ls = "[", ms = "[";
        doing("add/less");
        for (size_t i = 0; i < ys.size(); ++i) {
            y.push_back(raw{K::enc(ys[i])}); a.push_back(raw{K::enc(A::add(x, ys[i]))}); d.push_back(raw{K::enc(A::add(ys[i], x))});
            ls += (i ? "," : "") + js((bool)A::less(x, ys[i])); ms += (i ? "," : "") + js((bool)A::less(ys[i], x));
        }
        emit(head("row", c).f("x", raw{K::enc(x)}).f("ys", y).f("add", a).f("dda", d).f("less", raw{ls + "]"}).f("more", raw{ms + "]"}));
    }
    static W derived(Rng& g, const W& x) { // a weight related to x, so that comparisons get past the first elements
        W y = x;
        if constexpr (K::k[0] == 'v') {
            int c = g.below(5);
            if (c == 0 && !y.empty()) y.pop_back();
            else if (c == 1) y.push_back((T)0);
            else if (c == 2) y.push_back(Enc<T>::rnd(g, 1));
            else if (!y.empty()) y[g.below(y.size())] = Enc<T>::rnd(g, 0);
            if (g.chance(25)) y.push_back((T)0);
        } else if constexpr (K::k[0] == 'a') { y[g.below(y.size())] = Enc<T>::rnd(g, 0); }
        else if (g.chance(50)) { if (y < std::numeric_limits<T>::max()) y = y + 1; }
        return y;
    }
    static W any(Rng& g) { int c = g.below(12); return c == 0 ? A::max() : c == 1 ? A::bottom() : c == 2 ? A::zero() : K::rnd(g, 0); }
    static void random(long c, Rng& g) {
        switch (g.below(8)) {
            case 0: {
                std::vector<raw> pr;
                if constexpr (sizeof(T) > 1) for (int i = 0; i < 4; ++i) { W x = K::rnd(g, 1); std::stringstream s; A::print(s, x); pr.push_back(Obj().f("x", raw{K::enc(x)}).f("s", s.str()).r()); }
                emit(head("const", c).f("zero", raw{K::enc(A::zero())}).f("bottom", raw{K::enc(A::bottom())}).f("max", raw{K::enc(A::max())})
                     .f("is_weight", (bool)A::is_weight).f("is_signed", (bool)A::is_signed).f("is_vector", (bool)A::is_vector).f("print", pr));
                break; }
            case 1: case 2: {
                std::vector<raw> xs; W acc = A::zero(); int n = g.range(0, 6); doing("sum");
                for (int i = 0; i < n; ++i) { W x = any(g); xs.push_back(raw{K::enc(x)}); acc = A::add(acc, x); }
                emit(head("sum", c).f("xs", xs).f("res", raw{K::enc(acc)}));
                break; }
            default: {
                W x = any(g); std::vector<W> ys; for (int i = 0; i < 12; ++i) ys.push_back(g.chance(50) ? any(g) : derived(g, x));
                ys.push_back(x); ys.push_back(A::max()); ys.push_back(A::bottom()); ys.push_back(A::zero());
                row(c, x, ys);
            }
        }
    }
    static void exhaustive(long c, int v) { // 8-bit types only
        std::vector<W> ys; for (int i = 0; i < 256; ++i) ys.push_back((W)i);
        row(c, (W)v, ys);
    }
};
// ---- weight functions ----
template <typename W> struct FEnc { static std::string enc(W v) { i128 x = v, u = (i128)1 << 32, a = (x >= 0 ? (x + u / 2) / u : -((-x + u / 2) / u)), k = x - a * u; if (k > 100000000) k = 100000000; if (k < -100000000) k = -100000000; return "[" + std::to_string((long)a) + "," + std::to_string((long)k) + "]"; }
    static W rnd(Rng& g) { long v = g.range(std::is_signed_v<W> ? -9 : 0, 9); if (sizeof(W) == 8) v += (long)((uint64_t)g.range(std::is_signed_v<W> ? -3 : 0, 3) << 32); return (W)v; } };
template <> struct FEnc<double> { static std::string enc(double v) { return "[0," + std::to_string((long)(v * 2)) + "]"; } static double rnd(Rng& g) { return g.range(-9, 9) / 2.0; } };
template <typename W> struct Fun {
    using F = linear_weight_function<W, W, W>;
    static std::pair<F, std::string> gen(Rng& g, int d) {
        int c = g.below(100);
        if (d == 0 || c < 30) {
            if (g.chance(30)) { W v = FEnc<W>::rnd(g); return {F(std::function<W(W,W)>([v](W, W) { return v; })), Obj().f("f", "c").f("v", raw{FEnc<W>::enc(v)}).str()}; }
            int i = g.range(1, 2);
            return {F(std::function<W(W,W)>([i](W x, W y) { return i == 1 ? x : y; })), Obj().f("f", "x").f("i", i).str()};
        }
        int n = g.chance(10) ? 0 : g.range(1, 4); std::vector<std::pair<W,F>> fs; std::vector<raw> p;
        for (int i = 0; i < n; ++i) { auto s = gen(g, d - 1); int k = g.range(std::is_signed_v<W> ? -3 : 0, 4); fs.emplace_back((W)k, s.first); p.push_back(Obj().f("c", k).f("g", raw{s.second}).r()); }
        return {F(fs), Obj().f("f", "lin").f("p", p).str()};
    }
    static void run(long c, Rng& g) {
        int n = g.range(0, 4); std::vector<F> fs; std::vector<raw> es, rs, os; W x = FEnc<W>::rnd(g), y = FEnc<W>::rnd(g);
        for (int i = 0; i < n; ++i) { auto s = gen(g, 3); fs.push_back(s.first); es.push_back(raw{s.second}); }
        doing("weight function");
        for (auto& f : fs) rs.push_back(raw{FEnc<W>::enc(f(x, y))});
        ordered_weight_function<W, W, W> o(fs);
        for (auto v : o(x, y)) os.push_back(raw{FEnc<W>::enc(v)});
        emit(Obj().f("ev", "fun").f("case", c).f("fs", es).f("args", std::vector<raw>{raw{FEnc<W>::enc(x)}, raw{FEnc<W>::enc(y)}}).f("res", rs).f("ord", os));
    }
};
template <typename W> void both(long c, Rng& g) { if (g.chance(50)) Tester<W,false>::random(c, g); else Tester<W,true>::random(c, g); }
int main(int argc, char** argv) {
    Args a(argc, argv);
    return run_cases(a.lo, a.hi, 20, [&](long c) {
        if (a.mode == "x") { // all pairs of 8-bit numbers
            int v = c % 256;
            switch (c / 256) { case 0: Tester<int8_t,false>::exhaustive(c, v); break; case 1: Tester<int8_t,true>::exhaustive(c, v); break;
                               case 2: Tester<uint8_t,false>::exhaustive(c, v); break; case 3: Tester<uint8_t,true>::exhaustive(c, v); break; }
            return;
        }
        Rng g(a.seed * 1000003 + c);
        if (a.mode == "fun") { switch (g.below(5)) { case 0: Fun<int>::run(c, g); break; case 1: Fun<unsigned>::run(c, g); break; case 2: Fun<double>::run(c, g); break; case 3: Fun<unsigned long>::run(c, g); break; default: Fun<long>::run(c, g); } return; }
        switch (g.below(21)) {
            case 20: if (g.chance(50)) both<std::array<int64_t,6>>(c, g); else both<std::array<uint16_t,9>>(c, g); break;
            case 0: both<int16_t>(c, g); break; case 1: both<uint16_t>(c, g); break;
            case 2: both<int32_t>(c, g); break; case 3: both<uint32_t>(c, g); break;
            case 4: both<int64_t>(c, g); break; case 5: both<uint64_t>(c, g); break;
            case 6: both<std::array<int32_t,1>>(c, g); break; case 7: both<std::array<int32_t,3>>(c, g); break;
            case 8: both<std::array<uint32_t,2>>(c, g); break; case 9: both<std::array<uint32_t,3>>(c, g); break;
            case 10: both<std::array<int8_t,2>>(c, g); break; case 11: both<std::array<uint64_t,3>>(c, g); break;
            case 12: both<std::vector<int8_t>>(c, g); break; case 13: both<std::vector<uint8_t>>(c, g); break;
            case 14: case 15: both<std::vector<int32_t>>(c, g); break; case 16: case 17: both<std::vector<uint32_t>>(c, g); break;
            case 18: both<std::vector<int64_t>>(c, g); break; default: both<std::vector<uint64_t>>(c, g); break;
        }
    });
}
