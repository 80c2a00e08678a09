// Conformance driver for the parsers of regular expressions and of configuration sets.
#include "nfa_util.h"
#include <pdaaal/parsing/NfaParser.h>
#include <parsing/PAutomatonParser.h>
#include <set>
using namespace pdaaal;
using namespace vf;

struct Gen {
    Rng& g; const std::vector<std::string>& names; int layout; // layout: 0 none, 1 single spaces, 2 anything
    std::string ws(bool need = false) {
        if (layout == 0) return "";
        if (layout == 1) return g.chance(50) ? " " : "";
        std::string r; int n = g.below(3);
        for (int i = 0; i < n; ++i) switch (g.below(6)) { case 0: r += "\t"; break; case 1: r += "\n"; break; case 2: r += "# c|[*)\n"; break; case 3: r += "\r\n"; break; default: r += " "; }
        return r;
    }
    std::string set() {
        std::string s = g.chance(25) ? "[^" : "[";
        int n = g.chance(60) ? 1 : g.range(2, 3);
        for (int i = 0; i < n; ++i) { if (i) s += ws() + "," + ws(); s += g.chance(95) ? g.pick(names) : "zz"; }
        return s + "]";
    }
    std::string value(int d) {
        int c = g.below(100);
        if (c < 10) return ".";
        if (c < 45 && d > 0) return "(" + ws() + expr(d - 1) + ws() + ")";
        return set();
    }
    std::string unary(int d) { std::string s = value(d); int c = g.below(8); return c < 3 ? s + "*+?"[c] : s; }
    std::string seq(int d) { std::string s = unary(d); int n = g.chance(50) ? 0 : g.range(1, 2); for (int i = 0; i < n; ++i) s += ws() + unary(d); return s; }
    std::string expr(int d) { std::string s = seq(d); int n = g.chance(65) ? 0 : g.range(1, 2); for (int i = 0; i < n; ++i) s += ws() + "|" + ws() + seq(d); return s; }
    std::string file() { if (g.chance(4)) return ws(); return ws() + expr(g.range(0, 3)) + ws(); }
    std::string state(const std::vector<std::string>& st, bool quote_ok) {
        if (g.chance(3)) return quote_ok && g.chance(50) ? "\"nosuch\"" : quote_ok ? "nosuch" : "17";
        auto& s = g.pick(st);
        bool plain = !s.empty();
        for (size_t i = 0; i < s.size(); ++i) plain &= (isalnum((unsigned char)s[i]) || s[i] == '_');
        if (plain && quote_ok && isdigit((unsigned char)s[0])) for (char c : s) plain &= (bool)isdigit((unsigned char)c);
        if (plain && !(quote_ok && g.chance(20))) return s;
        std::string q = "\"";
        for (char c : s) { if (c == '"' || c == '\\') q += '\\'; q += c; }
        return q + "\"";
    }
    std::string cfg(const std::vector<std::string>& st, bool quote_ok) {
        std::string s = ws();
        int n = g.chance(50) ? 1 : g.range(2, 3);
        for (int i = 0; i < n; ++i) {
            if (i) s += ws() + "|" + ws();
            s += "<" + ws();
            if (g.chance(50)) s += state(st, quote_ok);
            else { s += "["; int m = g.range(1, 3); for (int j = 0; j < m; ++j) { if (j) s += ws() + "," + ws(); s += state(st, quote_ok); } s += "]"; }
            s += ws() + "," + ws() + (g.chance(8) ? "" : expr(g.range(0, 2))) + ws() + ">";
        }
        return s + ws();
    }
    std::string mutate(std::string s, const std::string& pool) {
        int n = g.range(1, 2);
        for (int i = 0; i < n; ++i) {
            size_t p = g.below(s.size() + 1);
            switch (g.below(4)) {
                case 0: if (p < s.size()) s.erase(p, 1); break;
                case 1: s.insert(p, 1, pool[g.below(pool.size())]); break;
                case 2: if (p < s.size()) s[p] = pool[g.below(pool.size())]; break;
                default: if (p + 1 < s.size()) std::swap(s[p], s[p + 1]);
            }
        }
        return s;
    }
};
static std::vector<std::string> chars(const std::string& s) { std::vector<std::string> r; for (char c : s) r.push_back(std::string(1, c)); return r; }
static const std::vector<std::vector<std::string>> NAMES{{"a"}, {"a", "b"}, {"A", "bb"}, {"x1", "y_2"}, {"a", "b", "c"}, {"b", "ab", "0"}};

static void nfa_case(Rng& g, long id) {
    auto names = g.pick(NAMES);
    int nl = (int)names.size(), k = nl == 3 ? 3 : nl == 2 ? 4 : 5;
    Gen G{g, names, (int)g.below(3)};
    std::string t = G.file();
    if (g.chance(35)) t = G.mutate(t, "|*+?()[]^,.# \nab_0;\"");
    bool ok = true; std::vector<std::vector<int>> acc;
    doing("NfaParser::parse_string");
    try {
        std::function<size_t(const std::string&)> f = [&](const std::string& s) -> size_t { for (size_t i = 0; i < names.size(); ++i) if (names[i] == s) return 10 * i + 3; return 999; };
        auto nfa = NfaParser::parse_string(t, f);
        nfa.compile();
        acc = nfa_accepted<size_t>(nfa, nl, k, [](int l) { return (size_t)(10 * l + 3); });
    } catch (const std::exception&) { ok = false; }
    emit(Obj().f("ev", "nfa").f("case", id).f("text", chars(t)).f("names", names).f("k", k).f("ok", ok).f("acc", acc).f("t", t));
}

template <typename pda_t> static void observe(const pda_t& pda, const std::string& t, pda_t& p2, const std::vector<std::string>& names, int np, int k, bool& ok, std::vector<std::pair<int, std::vector<int>>>& acc) {
    doing("PAutomatonParser::parse_string");
    try {
        auto a = parsing::PAutomatonParser::parse_string(t, p2);
        for (int p = 0; p < np; ++p) for (auto& w : words((int)names.size(), k)) {
            std::vector<uint32_t> st; for (int l : w) st.push_back((uint32_t)p2.exists_label(names[l]).second);
            if (a.accepts(p, st)) acc.emplace_back(p, w);
        }
    } catch (const std::exception&) { ok = false; }
}
static void cfg_case(Rng& g, long id) {
    auto names = g.pick(NAMES);
    int nl = (int)names.size(), k = nl == 3 ? 3 : nl == 2 ? 3 : 4;
    Gen G{g, names, (int)g.below(3)};
    bool named = g.chance(70);
    std::vector<std::string> st;
    if (named) {
        static const std::vector<std::vector<std::string>> ST{{"p0", "p1", "p2"}, {"q", "q x", "a\"b"}, {"s\\t", "0", "_1"}, {"p"}, {"<p>", "x,y", "12"}};
        st = g.pick(ST);
    } else { int n = g.range(1, 4); for (int i = 0; i < n; ++i) st.push_back(std::to_string(i)); }
    std::string t = G.cfg(st, named);
    if (g.chance(30)) t = G.mutate(t, named ? "|*+?()[]^,.# \nab_0;<>\"\\\t" : "|*+?()[]^,.# \nab_0;<>");
    bool ok = true; std::vector<std::pair<int, std::vector<int>>> acc;
    auto order = names; if (g.chance(50)) std::reverse(order.begin(), order.end());
    if (named) {
        PDA<std::string, weight<void>, fut::type::vector, std::string> pda;
        for (auto& n : order) pda.insert_label(n);
        for (auto& s : st) pda.insert_state(s);
        observe(pda, t, pda, names, (int)st.size(), k, ok, acc);
    } else {
        PDA<std::string, weight<void>, fut::type::vector, size_t> pda;
        for (auto& n : order) pda.insert_label(n);
        for (size_t i = 0; i < st.size(); ++i) pda.insert_state(i);
        observe(pda, t, pda, names, (int)st.size(), k, ok, acc);
    }
    emit(Obj().f("ev", "cfg").f("case", id).f("text", chars(t)).f("names", names).f("idx", !named).f("states", st).f("k", k).f("ok", ok).f("acc", acc).f("t", t));
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    return run_cases(a.lo, a.hi, 20, [&](long i) { Rng g(a.seed * 1000003ull + i); if (a.mode == "cfg") cfg_case(g, i); else nfa_case(g, i); });
}
