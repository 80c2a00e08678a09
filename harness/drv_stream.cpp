// Conformance driver for the JSON output stream: histories of operations, and the documents written, read back member by member.
#include "common.h"
#include <utils/json_stream.h>
#include <sstream>
#include <memory>
using namespace vf;
static std::string tree(const json& v) {
    if (!v.is_object()) return "[\"v\"," + js(v.dump()) + "]";
    std::string r = "[\"o\",["; bool first = true;
    for (auto& [k, x] : v.items()) { if (!first) r += ","; first = false; r += "[" + js(k) + "," + tree(x) + "]"; }
    return r + "]]";
}
// The members of a document as they are written: in order, repeated ones repeated.
struct Doc : nlohmann::json_sax<json> {
    std::vector<std::string> open; std::vector<bool> first; std::vector<std::string> out{""}; int arr = 0; bool bad = false;
    std::string text; // of an array being read
    std::vector<std::string> keys;
    std::vector<json> vals; // values inside arrays
    std::string res; bool top = false;
    void value(const json& v) {
        if (arr) { vals.back().push_back(v); return; }
        if (first.empty()) { res = "[\"v\"," + js(v.dump()) + "]"; return; }
        member("[\"v\"," + js(v.dump()) + "]");
    }
    void member(const std::string& t) {
        if (!first.back()) open.back() += ","; first.back() = false;
        open.back() += "[" + js(keys.back()) + "," + t + "]"; keys.pop_back();
    }
    bool null() override { value(json(nullptr)); return true; }
    bool boolean(bool v) override { value(json(v)); return true; }
    bool number_integer(number_integer_t v) override { value(json(v)); return true; }
    bool number_unsigned(number_unsigned_t v) override { value(json(v)); return true; }
    bool number_float(number_float_t v, const string_t&) override { value(json(v)); return true; }
    bool string(string_t& v) override { value(json(v)); return true; }
    bool binary(binary_t&) override { bad = true; return false; }
    bool start_object(std::size_t) override {
        if (arr) { bad = true; return false; } // arrays in the histories hold no objects
        open.push_back(""); first.push_back(true); return true;
    }
    bool key(string_t& k) override { keys.push_back(k); return true; }
    bool end_object() override {
        std::string t = "[\"o\",[" + open.back() + "]]"; open.pop_back(); first.pop_back();
        if (first.empty()) res = t; else member(t);
        return true;
    }
    bool start_array(std::size_t) override { ++arr; vals.push_back(json::array()); return true; }
    bool end_array() override {
        --arr; json a = vals.back(); vals.pop_back();
        if (arr) vals.back().push_back(a); else value(a);
        return true;
    }
    bool parse_error(std::size_t, const std::string&, const nlohmann::detail::exception&) override { bad = true; return false; }
};
static std::string key(Rng& g) {
    static const std::vector<std::string> odd{"", "a b", "q\"q", "back\\slash", "tab\t", "new\nline", "\xC3\xA9", "{", "}", ":", ",", "\x01"};
    if (g.chance(15)) return g.pick(odd);
    return std::string(1, (char)('a' + g.below(6)));
}
static json value(Rng& g, int d) {
    switch (g.below(d > 0 ? 9 : 6)) {
        case 0: return g.range(-1000, 1000);
        case 1: return g.chance(50);
        case 2: return nullptr;
        case 3: return key(g);
        case 4: return "text with \"quotes\" and }{";
        case 5: return (uint64_t)g.next();
        case 6: { json a = json::array(); for (int i = g.below(4); i > 0; --i) { json e = value(g, d - 1); a.push_back(e.is_object() ? json(1) : e); } return a; }
        default: { json o = json::object(); for (int i = g.below(4); i > 0; --i) o[key(g)] = value(g, d - 1); return o; }
    }
}
static void history(Rng& g, long cid) {
    std::ostringstream out; size_t from = 0; int depth = 0;
    int indent = g.below(3) == 0 ? g.below(9) : 4;
    auto s = std::make_unique<json_stream>(indent, out);
    emit(Obj().f("ev", "new").f("case", cid).f("indent", indent));
    auto wrote = [&](const char* how) {
        std::string text = out.str().substr(from); from = out.str().size();
        Doc d; bool blank = text.find_first_not_of(" \n\r\t") == std::string::npos;
        bool ok = blank || (json::sax_parse(text, &d) && !d.bad);
        Obj o; o.f("ev", "close").f("how", how).f("ok", ok).f("blank", blank).f("doc", raw{!ok || blank ? "[\"v\",\"\"]" : d.res});
        if (!ok) o.f("text", text);
        emit(o); depth = 0;
    };
    int n = g.chance(10) ? g.range(20, 80) : g.range(0, 14);
    for (int i = 0; i < n; ++i) {
        int c = g.below(100);
        if (c < 40) { auto k = key(g); json v = value(g, 2); doing("entry"); s->entry(k, v); emit(Obj().f("ev", "entry").f("k", k).f("v", raw{tree(v)})); }
        else if (c < 60) { auto k = key(g); json v = value(g, 2); doing("entry_object"); s->entry_object(k, v); emit(Obj().f("ev", "entry").f("k", k).f("v", raw{tree(v)})); }
        else if (c < 77) { auto k = key(g); doing("begin_object"); s->begin_object(k); ++depth; emit(Obj().f("ev", "begin").f("k", k)); }
        else if (c < 95) { if (depth == 0) continue; doing("end_object"); s->end_object(); --depth; emit(Obj().f("ev", "end")); }
        else { doing("close"); s->close(); wrote("close"); }
    }
    if (g.chance(50)) { doing("close"); s->close(); wrote("close"); }
    doing("~json_stream"); s.reset(); wrote("destroy");
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    return run_cases(a.lo, a.hi, 20, [&](long i) { Rng g(a.seed * 1000003ull + i); history(g, i); });
}
