// Conformance driver for the byte encodings of keys and the trie-backed sets and maps.
#include "common.h"
#include <array>
#include <cassert>
#include <limits>
#include <tuple>
#include <iterator>
#include <pdaaal/utils/ptrie_interface.h>
using namespace pdaaal::utils;
using namespace vf;
template <typename T> struct G { // numbers
    static T rnd(Rng& g) {
        switch (g.below(8)) { case 0: return 0; case 1: return (T)1; case 2: return std::numeric_limits<T>::max(); case 3: return std::numeric_limits<T>::min(); case 4: return (T)255; case 5: return (T)256; case 6: return (T)((uint64_t)g.below(3) << (8 * g.below(8))); default: return (T)g.below(4); } }
    static std::string str(const T& v) { return std::to_string(v); }
};
template <> struct G<bool> { static bool rnd(Rng& g) { return g.chance(50); } static std::string str(bool b) { return b ? "t" : "f"; } };
template <> struct G<std::string> { static std::string rnd(Rng& g) { std::string s; int n = g.below(4); for (int i = 0; i < n; ++i) s += "ab\0\xff"[g.below(4)]; if (g.chance(5)) s += std::string(g.chance(30) ? g.range(250, 600) : 40, 'x'); if (g.chance(20) && !s.empty()) s.back() ^= 1; return s; }
    static std::string str(const std::string& s) { std::string r = "'"; for (unsigned char c : s) r += std::to_string(c) + "."; return r; } };
template <typename T> struct G<std::vector<T>> { static std::vector<T> rnd(Rng& g) { std::vector<T> v(g.chance(5) ? g.range(200, 300) : g.below(4)); bool same = v.size() > 10; T x = G<T>::rnd(g); for (auto&& e : v) e = same ? x : G<T>::rnd(g); return v; }
    static std::string str(const std::vector<T>& v) { std::string r = "["; for (const auto& e : v) r += G<T>::str(e) + ";"; return r + "]"; } };
template <typename T, size_t N> struct G<std::array<T,N>> { static std::array<T,N> rnd(Rng& g) { std::array<T,N> v; for (auto& e : v) e = G<T>::rnd(g); return v; }
    static std::string str(const std::array<T,N>& v) { std::string r = "{"; for (const auto& e : v) r += G<T>::str(e) + ";"; return r + "}"; } };
template <typename A, typename B> struct G<std::pair<A,B>> { static std::pair<A,B> rnd(Rng& g) { A a = G<A>::rnd(g); return {a, G<B>::rnd(g)}; } static std::string str(const std::pair<A,B>& p) { return "<" + G<A>::str(p.first) + ";" + G<B>::str(p.second) + ">"; } };
template <typename... A> struct G<std::tuple<A...>> { static std::tuple<A...> rnd(Rng& g) { return std::tuple<A...>{G<A>::rnd(g)...}; }
    static std::string str(const std::tuple<A...>& t) { return std::apply([](const auto&... x) { return "(" + ((G<std::decay_t<decltype(x)>>::str(x) + ",") + ...) + ")"; }, t); } };
template <typename... A> struct G<std::variant<A...>> { using V = std::variant<A...>;
    template <size_t I> static V pick(Rng& g, size_t i) { if constexpr (I + 1 < sizeof...(A)) if (i != I) return pick<I + 1>(g, i); return V(std::in_place_index<I>, G<std::variant_alternative_t<I,V>>::rnd(g)); }
    static V rnd(Rng& g) { return pick<0>(g, g.below(sizeof...(A))); }
    static std::string str(const V& v) { return "v" + std::to_string(v.index()) + ":" + std::visit([](const auto& x) { return G<std::decay_t<decltype(x)>>::str(x); }, v); } };

template <typename K> struct Mutate { static K near(Rng& g, const std::vector<K>& seen) { return !seen.empty() && g.chance(55) ? seen[g.below(seen.size())] : G<K>::rnd(g); } };
template <typename K, typename S, bool map> void history(long c, Rng& g) {
    emit(Obj().f("ev", "new").f("case", c));
    S s; std::vector<K> seen; int n = g.chance(4) ? g.range(300, 700) : g.range(5, 40); size_t count = 0;
    auto str = [](const K& k) { return G<K>::str(k); };
    for (int i = 0; i < n; ++i) {
        K k = Mutate<K>::near(g, seen);
        int x = g.below(100);
        if (x < 35) { doing("insert"); auto r = s.insert(k); seen.push_back(k); if (r.first) ++count; emit(Obj().f("ev", "insert").f("k", str(k)).f("new", r.first).f("id", (long)r.second)); }
        else if (x < 50) { doing("exists"); auto r = s.exists(k); Obj o; o.f("ev", "exists").f("k", str(k)).f("res", r.first); if (r.first) o.f("id", (long)r.second); emit(o); }
        else if (x < 55) emit(Obj().f("ev", "size").f("res", (long)s.size()));
        else if (x < 75) { if (s.size() == 0) continue; size_t id = g.below(s.size()); doing("at"); emit(Obj().f("ev", "at").f("id", (long)id).f("k", str(s.at(id)))); }
        else if (x < 90) {
            if constexpr (map) { doing("operator[]"); int& d = s[k]; int old = d; d = g.range(1, 99); seen.push_back(k); emit(Obj().f("ev", "write").f("k", str(k)).f("old", old).f("v", d));
                if (s.size() > 0) { size_t id = g.below(s.size()); doing("get_data"); emit(Obj().f("ev", "data").f("id", (long)id).f("v", (int)s.get_data(id))); } }
            else if (s.size() > 0) {
                std::vector<size_t> ids; int m = g.range(1, 6); for (int j = 0; j < m; ++j) ids.push_back(g.below(s.size()));
                using It = ptrie_access_iterator<S>;
                It b(ids.cbegin(), &s), e(ids.cend(), &s), it(b); long pos = 0; std::vector<raw> steps;
                for (int j = 0; j < 8; ++j) {
                    doing("iterator");
                    long to = g.below(m + 1), d = to - pos;
                    switch (g.below(7)) {
                        case 0: it += d; pos = to; break; case 1: it -= -d; pos = to; break; case 2: it = it + d; pos = to; break; case 3: it = it - (-d); pos = to; break;
                        case 4: if (pos < m) { if (g.chance(50)) ++it; else { auto o = it++; if (o.base() + 1 != it.base()) pos = 77; } ++pos; } break;
                        case 5: if (pos > 0) { if (g.chance(50)) --it; else { auto o = it--; if (o.base() - 1 != it.base()) pos = 77; } --pos; } break;
                        default: it = d + it; pos = to;
                    }
                    long ref = g.below(m); It r = b + ref;
                    Obj o; o.f("at", pos).f("ref", ref).f("dist", (it != e) == (it == e) ? -5L : (long)(it - b)).f("end", it == e).f("lt", it < r).f("le", it <= r).f("gt", it > r).f("ge", it >= r);
                    o.f("idx", str(it[ref - pos]));
                    if (pos < m) o.f("k", str(*it));
                    steps.push_back(o.r());
                }
                emit(Obj().f("ev", "iter").f("ids", std::vector<long>(ids.begin(), ids.end())).f("steps", steps));
            }
        } else {
            if constexpr (requires { sizeof(byte_vector_converter<K>); }) {
                doing("encode"); std::vector<std::byte> b; byte_vector_converter<K>::push_back_bytes(b, k); std::vector<int> bytes; for (auto y : b) bytes.push_back((int)y);
                K back{}; size_t at = 0; byte_vector_converter<K>::from_bytes(b, at, back);
                emit(Obj().f("ev", "encode").f("k", str(k)).f("bytes", bytes).f("size", (long)byte_vector_converter<K>::size(k)).f("back", at == b.size() ? str(back) : std::string("not all bytes read")));
            }
        }
    }
    if (s.size() > 0) for (size_t id = 0; id < count && id < 20; ++id) { doing("at"); emit(Obj().f("ev", "at").f("id", (long)id).f("k", str(s.at(id)))); }
}
template <typename K> void both(long c, Rng& g) { if (g.chance(60)) history<K, ptrie_set<K>, false>(c, g); else history<K, ptrie_map<K,int>, true>(c, g); }
template <typename... A> using T = std::tuple<A...>; template <typename A> using V = std::vector<A>; template <typename... A> using X = std::variant<A...>;
int main(int argc, char** argv) {
    Args a(argc, argv);
    return run_cases(a.lo, a.hi, 20, [&](long c) {
        Rng g(a.seed * 1000003 + c);
        switch (g.below(20)) {
            case 0: both<uint8_t>(c, g); break; case 1: both<uint32_t>(c, g); break; case 2: both<int64_t>(c, g); break; case 3: both<size_t>(c, g); break;
            case 4: case 5: both<std::string>(c, g); break; case 6: both<V<uint32_t>>(c, g); break; case 7: both<V<char>>(c, g); break;
            case 8: both<T<uint8_t,uint32_t>>(c, g); break; case 9: both<T<int,V<int>>>(c, g); break; case 10: both<T<V<uint8_t>,V<uint16_t>>>(c, g); break;
            case 11: both<V<T<uint8_t,uint16_t>>>(c, g); break; case 12: both<T<T<uint8_t,V<T<uint16_t,uint8_t>>>,V<uint8_t>>>(c, g); break;
            case 13: both<X<int,V<int>>>(c, g); break; case 14: both<X<uint8_t,T<uint8_t,uint8_t>,V<uint8_t>>>(c, g); break; case 15: both<T<X<uint8_t,V<uint8_t>>,V<uint8_t>>>(c, g); break;
            case 16: both<std::array<uint16_t,3>>(c, g); break; case 17: both<T<size_t,size_t>>(c, g); break; case 18: both<X<V<uint8_t>>>(c, g); break;
            default: both<T<size_t,size_t,bool>>(c, g);
        }
    });
}
