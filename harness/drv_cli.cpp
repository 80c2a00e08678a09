// The command-line tool: random instances written to files in every input format, every engine and trace type; the output is recorded.
#include "instance.h"
#include <nlohmann/json.hpp>
#include <fstream>
#include <map>
#include <spawn.h>
#include <libgen.h>

using namespace vf;
using nlohmann::json;
using J = nlohmann::ordered_json;
extern char** environ;

static std::string TOOL;
static void spit(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o << s; }
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
// -> 0 on success, otherwise the exit status (or signal + 1000)
static int run_tool(const std::vector<std::string>& args, const std::string& in) {
    std::vector<char*> av{(char*)TOOL.c_str()};
    for (auto& a : args) av.push_back((char*)a.c_str());
    av.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, in.empty() ? "/dev/null" : in.c_str(), O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, "stdout", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawn_file_actions_addopen(&fa, 2, "stderr", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    pid_t pid;
    int rc = posix_spawn(&pid, TOOL.c_str(), &fa, nullptr, av.data(), environ);
    posix_spawn_file_actions_destroy(&fa);
    if (rc) _exit(3);
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}

static const char* WTS[] = {"none", "uint", "int", "vuint", "vint"};
struct Atom { std::vector<int> ls; bool star; };
struct Cli {
    Rng& g; Inst x; bool named; int wt;
    std::vector<int> order;      // order[k]: the state listed k-th
    std::map<size_t, int> num;   // number the tool gives a state -> our state
    std::map<std::string, int> lab;
    std::string texts[2];        // text form of the automata, if they have one
    Cli(Rng& g, int wt) : g(g), named(g.chance(50)), wt(wt) {}
    std::string sname(int s) { return "s" + std::to_string(s); }
    J st(int s) { if (named) return sname(s); return s; }
    J w(const std::vector<int>& v) { if (wt < 3) return v[0]; J j = J::array(); for (int y : v) j.push_back(y); return j; }
    J pda() {
        std::vector<J> ss(x.np, J::object());
        auto put = [&](J& o, const std::string& l, const J& r) { if (!o.contains(l)) { if (g.chance(70)) o[l] = r; else o[l] = J::array({r}); } else { if (!o[l].is_array()) { J t = o[l]; o[l] = J::array({t}); } o[l].push_back(r); } };
        for (int l = 0; l < x.nl; ++l) if (g.chance(70) || true) ss[order[0]][label_name(l)] = J::array();
        for (auto& r : x.rules) {
            std::vector<std::string> pre; if (r.wild) pre.push_back("*"); else for (int l : r.pre) pre.push_back(label_name(l));
            for (auto& p : pre) {
                J o = J::object();
                std::vector<int> ks{0, 1, 2}; for (int i = 2; i > 0; --i) std::swap(ks[i], ks[g.below(i + 1)]);
                for (int k : ks) {
                    if (k == 0) o["to"] = st(r.to);
                    else if (k == 1) { if (r.op == POP_) o["pop"] = ""; else if (r.op == PUSH_) o["push"] = label_name(r.opl); else if (r.op == SWAP_) o["swap"] = label_name(r.opl); else o["swap"] = p; }
                    else if (wt) o["weight"] = w(r.w);
                }
                put(ss[r.from], p, o);
            }
        }
        J states; num.clear();
        auto mention = [&](int s) { for (auto& [k, v] : num) if (v == s) return; num.emplace(num.size(), s); };
        if (named) {
            states = J::object();
            for (int s : order) { states[sname(s)] = ss[s]; }
            for (int s : order) {
                mention(s);
                for (auto& [l, rs] : ss[s].items()) for (auto& r : rs.is_array() ? rs : J::array({rs})) mention(atoi(r["to"].get<std::string>().c_str() + 1));
            }
        } else { states = J::array(); for (int s = 0; s < x.np; ++s) { states.push_back(ss[s]); num[s] = s; } }
        J p = J::object(); p["states"] = states;
        if (g.chance(10)) p["comment"] = J::array({1, "x"});
        return p;
    }
    J aut(const Aut& a, bool init) {
        J j = J::object(), e = J::array(), acc = J::array();
        bool byname = g.chance(50);
        auto as = [&](int s) -> J { if (s < x.np) return st(s); if (named && byname) return "e" + std::to_string(s); return s; };
        for (int s : a.acc) acc.push_back(as(s));
        for (auto& t : a.e) e.push_back(J::array({as(t[0]), label_name(t[1]), as(t[2])}));
        if (g.chance(50)) { j["edges"] = e; j["accepting"] = acc; } else { j["accepting"] = acc; j["edges"] = e; }
        if (init) { J i = J::array(); for (int s = 0; s < x.np; ++s) i.push_back(st(s)); j["initial"] = i; }
        return j;
    }
    // An automaton from a list of atoms, with its text.
    Aut from_atoms(std::string& text) {
        Aut a; a.n = x.np;
        int parts = g.chance(75) ? 1 : 2;
        for (int k = 0; k < parts; ++k) {
            std::set<int> from; from.insert(g.below(x.np)); if (g.chance(20)) from.insert(g.below(x.np));
            std::vector<Atom> at; int n = g.range(0, 3);
            std::string ps = k ? " | < [" : "< [";
            bool f = true; for (int s : from) { if (!f) ps += ", "; f = false; ps += named ? sname(s) : std::to_string(s); }
            ps += "] , ";
            if (n == 0) n = 1;
            for (int i = 0; i < n; ++i) {
                Atom t; t.star = g.chance(25);
                if (g.chance(20)) { for (int l = 0; l < x.nl; ++l) t.ls.push_back(l); ps += "."; }
                else { std::set<int> s; s.insert(g.below(x.nl)); if (g.chance(20)) s.insert(g.below(x.nl)); t.ls.assign(s.begin(), s.end()); ps += "["; for (size_t i = 0; i < t.ls.size(); ++i) ps += (i ? "," : "") + label_name(t.ls[i]); ps += "]"; }
                if (t.star) ps += "*";
                ps += " ";
                at.push_back(t);
            }
            ps += ">";
            text += ps;
            int base = a.n - 1; // state i (1..n) of this part is base + i; state 0 is the control state
            a.n += n;
            for (int p : from) for (int i = 0; i <= n; ++i) for (int j = 0; j < n; ++j) {
                bool ok = j >= i; for (int m = i; m < j; ++m) ok = ok && at[m].star;
                if (j + 1 == i && at[j].star) ok = true;
                if (!ok) continue;
                for (int l : at[j].ls) a.e.insert({i == 0 ? p : base + i, l, base + j + 1});
            }
            for (int i = 0; i <= n; ++i) { bool all = true; for (int m = i; m < n; ++m) all = all && at[m].star; if (all) { if (i == 0) for (int p : from) a.acc.insert(p); else a.acc.insert(base + i); } }
        }
        return a;
    }
};

static void ask(Cli& c, const char* how, const std::vector<std::string>& base, const std::string& in, int engine, int tt, bool input_ok, bool silent) {
    std::vector<std::string> args = base;
    if (engine >= 0) { args.push_back(c.g.chance(50) ? "-e" : "--engine"); args.push_back(std::to_string(engine)); }
    if (tt >= 0) { args.push_back(c.g.chance(50) ? "-t" : "--trace"); args.push_back(std::to_string(tt)); }
    if (silent) args.push_back("--silent");
    int rc = run_tool(args, in);
    std::string out = slurp("stdout");
    Obj o;
    o.f("ev", "cli").f("how", how).f("engine", engine < 0 ? 0 : engine).f("tt", tt < 0 ? 0 : tt).f("wt", WTS[c.wt]).f("input", input_ok).f("silent", silent);
    o.f("fine", rc == 0).f("said", rc == 0 || !slurp("stderr").empty());
    bool blank = out.find_first_not_of(" \n\t\r") == std::string::npos;
    bool wf = !blank && json::accept(out);
    std::vector<std::string> keys; bool res = false; std::string eng, weight = "none"; long wv = 0; bool tr = false; std::vector<raw> cfg;
    bool hasres = out.find("\"result\"") != std::string::npos;
    if (wf) {
        // keys as written: a repeated key is one too many
        struct K { std::vector<std::string>& k; int d = 0;
            bool null() { return true; } bool boolean(bool) { return true; } bool number_integer(int64_t) { return true; } bool number_unsigned(uint64_t) { return true; } bool number_float(double, const std::string&) { return true; }
            bool string(std::string&) { return true; } bool binary(json::binary_t&) { return true; } bool start_object(size_t) { ++d; return true; } bool end_object() { --d; return true; } bool start_array(size_t) { d += 100; return true; } bool end_array() { d -= 100; return true; }
            bool key(std::string& s) { if (d == 1) k.push_back(s); return true; } bool parse_error(size_t, const std::string&, const nlohmann::detail::exception&) { return false; } } k{keys};
        json::sax_parse(out, &k);
        json j = json::parse(out);
        if (j.contains("engine") && j["engine"].is_string()) eng = j["engine"];
        if (j.contains("result") && j["result"].is_boolean()) res = j["result"]; else hasres = false;
        if (j.contains("weight")) {
            auto& w = j["weight"];
            if (w.is_string()) weight = w == "infinity" ? "inf" : w == "negative infinity" ? "neginf" : "bad";
            else if (w.is_number_integer() && c.wt < 3 && w.get<int64_t>() > -1000000000 && w.get<int64_t>() < 1000000000) { weight = "num"; wv = w.get<int64_t>(); }
            else if (w.is_array() && c.wt >= 3) {
                weight = "num"; std::vector<int> v; for (auto& y : w) { if (y.is_number_integer()) v.push_back(y.get<int>()); else weight = "bad"; }
                if (v.size() > 3) weight = "bad"; else wv = enc_w(v);
                if (!v.empty() && c.x.rules.size() && v.size() != c.x.rules[0].w.size()) weight = "bad";
            } else weight = "bad";
        }
        if (j.contains("trace") && j["trace"].is_array()) {
            tr = true;
            for (auto& s : j["trace"]) {
                int state = -1; std::vector<int> stack;
                if (s.contains("state") && s["state"].is_number_unsigned() && c.num.count(s["state"].get<size_t>())) state = c.num[s["state"].get<size_t>()];
                if (s.contains("stack") && s["stack"].is_array()) for (auto& l : s["stack"]) stack.push_back(l.is_string() && c.lab.count(l.get<std::string>()) ? c.lab[l.get<std::string>()] : 99);
                cfg.push_back(raw{"[" + js(state) + "," + js(stack) + "]"});
            }
        }
    }
    o.f("blank", blank).f("wf", wf).f("keys", keys).f("hasres", hasres).f("res", res).f("eng", eng).f("weight", weight).f("w", wv).f("tr", tr).f("cfg", cfg);
    emit(o);
}

static std::string damage(Rng& g, const J& j, const std::string& s) {
    switch (g.below(3)) {
        case 0: return s.substr(0, g.below(s.size()));
        case 1: return s + "]";
        default: { J k = j; auto& a = k["instance"]; switch (g.below(5)) { case 0: a.erase(g.below(4)); break; case 1: a[1].erase("states"); break; case 2: a[2].erase("edges"); break; case 3: a[3].erase("accepting"); break; default: a[0]["weight-type"] = "real"; } return k.dump(); }
    }
}

static void one_case(Rng& g, long id) {
    int wt = g.chance(25) ? 0 : g.range(1, 4);
    Cli c(g, wt);
    GenOpt o;
    bool neg = (wt == 2) && g.chance(50);
    o.wlo = neg ? -3 : 0;
    if (wt >= 3) o.wdim = g.range(1, 2);
    bool text = g.chance(25) && wt < 3;
    do { c.x = gen_inst(g, o); } while (false);
    if (text) { c.x.I = c.from_atoms(c.texts[0]); c.x.F = c.from_atoms(c.texts[1]); }
    for (int i = 0; i < c.x.np; ++i) c.order.push_back(i);
    for (size_t i = c.order.size(); i > 1; --i) std::swap(c.order[i - 1], c.order[g.below(i)]);
    for (int l = 0; l < c.x.nl; ++l) c.lab[label_name(l)] = l;
    std::vector<std::string> want;
    if (wt) { want.push_back("min"); if (wt < 3) want.push_back("max"); }
    emit(inst_json(c.x, id, want));

    J pda = c.pda();
    bool sep = text || (wt < 3 && g.chance(30));
    std::vector<std::string> base; std::string in; const char* how;
    J inst = J::object();
    std::string insttext;
    if (sep) {
        how = text ? "text" : "files";
        J p = J::object(); p["pda"] = pda; spit("pda.json", p.dump(g.chance(50) ? 2 : -1));
        if (text) { spit("i.txt", c.texts[0]); spit("f.txt", c.texts[1]); }
        else { J a = J::object(); a["P-automaton"] = c.aut(c.x.I, true); spit("i.txt", a.dump()); J b = J::object(); b["P-automaton"] = c.aut(c.x.F, true); spit("f.txt", b.dump()); base.push_back("--json-automata"); }
        base.insert(base.end(), {g.chance(50) ? "-p" : "--pda", "pda.json", g.chance(50) ? "-i" : "--initial-automaton", "i.txt", g.chance(50) ? "-f" : "--final-automaton", "f.txt"});
        if (wt) { static const char* up[] = {"", "UINT", "Int"}; base.push_back("--weight"); base.push_back(g.chance(80) ? WTS[wt] : up[wt]); } else if (g.chance(20)) { base.push_back("--weight"); base.push_back("none"); }
        if (c.named) base.push_back("--state-names");
        if (g.chance(10)) { base.push_back("--format"); base.push_back(g.chance(50) ? "pdaaal" : "PDAAAL"); }
    } else {
        J ty = J::object();
        J w; if (wt < 3) w = WTS[wt]; else { w = J::array({wt == 3 ? "uint" : "int"}); if (g.chance(30)) w.push_back(o.wdim); }
        if (g.chance(50)) { ty["state-names"] = c.named; ty["weight-type"] = w; } else { ty["weight-type"] = w; ty["state-names"] = c.named; }
        inst["instance"] = J::array({ty, pda, c.aut(c.x.I, g.chance(20)), c.aut(c.x.F, g.chance(20))});
        insttext = inst.dump(g.chance(50) ? 1 : -1);
        if (g.chance(15)) { how = "msgpack"; auto v = J::to_msgpack(inst); insttext.assign(v.begin(), v.end()); base.push_back("--msgpack"); }
        else how = "instance";
        spit("in.json", insttext);
        switch (g.below(4)) { case 0: in = "in.json"; break; case 1: in = "in.json"; base.push_back("--input"); base.push_back("-"); break; default: base.push_back("--input"); base.push_back("in.json"); }
    }
    doing("pdaaal");
    // Shortest traces need weights that are not negative; longest traces need scalars.
    std::vector<std::pair<int,int>> combos;
    for (int e = 1; e <= 3; ++e) for (int t = 0; t <= 4; ++t) {
        if (wt == 0 && t >= 2 && !g.chance(15)) continue;
        if (t == 2 && neg) continue;
        if (t == 3 && wt >= 3) continue;
        combos.emplace_back(e, t);
    }
    int n = g.range(2, 4);
    for (int i = 0; i < n; ++i) { auto [e, t] = g.pick(combos); ask(c, how, base, in, e, t == 0 && g.chance(30) ? -1 : t, true, g.chance(30)); }
    if (g.chance(15)) ask(c, how, base, in, g.chance(50) ? 0 : -1, g.chance(50) ? -1 : 1, true, g.chance(50));
    if (g.chance(10)) ask(c, how, base, in, g.range(4, 9), g.range(0, 4), true, g.chance(30));
    if (g.chance(5)) ask(c, how, base, in, g.range(1, 3), g.range(5, 12), true, g.chance(30));
    if (g.chance(15)) {
        // unusable input
        std::vector<std::string> b; std::string in2;
        if (!sep && std::string(how) == "instance") { spit("bad.json", damage(g, inst, insttext)); b = {"--input", "bad.json"}; if (g.chance(20)) b = {"--input", "nosuchfile.json"}; }
        else if (sep) {
            b = base;
            switch (g.below(5)) {
                case 0: b.push_back("--weight=float"); break;
                case 1: for (auto& s : b) if (s == "pda.json") s = "nosuchfile.json"; break;
                case 2: for (auto& s : b) if (s == "i.txt") s = "nosuchfile.txt"; break;
                case 3: if (c.named) { b.erase(std::find(b.begin(), b.end(), "--state-names")); } else b.push_back("--state-names"); break;
                default: spit("cut.txt", text ? c.texts[1].substr(0, c.texts[1].size() - 1 - g.below(3)) : "{\"P-automaton\":{}}"); for (auto& s : b) if (s == "f.txt") s = "cut.txt";
            }
        } else { b = {"--input", "in.json"}; }   // MessagePack read as text
        ask(c, how, b, in2, g.range(1, 3), g.range(0, 1), false, g.chance(30));
    }
    if (g.chance(20)) {
        // the printed instance is as good as the input
        auto b = base; b.push_back("--print-solver-instance"); b.push_back("printed.json");
        bool pj = g.chance(50); if (pj) { b.push_back("--print-pda-json"); b.push_back("pp.json"); }
        ask(c, how, b, in, 0, -1, true, true);
        auto [e, t] = g.pick(combos);
        std::map<size_t,int> keep = c.num;
        if (c.named) { // printed in the order of names: number the states again
            c.num.clear();
            try {
                json j = json::parse(slurp("printed.json"));
                auto mention = [&](const std::string& s) { int k = atoi(s.c_str() + 1); for (auto& [a, v] : c.num) if (v == k) return; c.num.emplace(c.num.size(), k); };
                for (auto& [s, o] : j["instance"][1]["states"].items()) { mention(s); for (auto& [l, rs] : o.items()) { if (rs.is_array()) for (auto& r : rs) mention(r["to"]); else mention(rs["to"]); } }
            } catch (std::exception&) {}
        }
        ask(c, "printed", {"--input", "printed.json"}, "", e, t, true, g.chance(50));
        if (pj && !sep && wt < 3) { // the printed PDA with automata from files
            J a = J::object(); a["P-automaton"] = c.aut(c.x.I, true); spit("i.txt", a.dump()); J bb = J::object(); bb["P-automaton"] = c.aut(c.x.F, true); spit("f.txt", bb.dump());
            std::vector<std::string> b2{"--json-automata", "-p", "pp.json", "-i", "i.txt", "-f", "f.txt", "--weight", WTS[wt]}; if (c.named) b2.push_back("--state-names");
            ask(c, "printed-pda", b2, "", e, t, true, g.chance(50));
        }
        c.num = keep;
    }
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    std::vector<char> p(argv[0], argv[0] + strlen(argv[0]) + 1);
    TOOL = std::string(dirname(p.data())) + "/pdaaal_tool";
    return run_cases(a.lo, a.hi, 60, [&](long i) { Rng g(a.seed * 1000003 + (uint64_t)i * 7919 + 5); one_case(g, i); });
}
