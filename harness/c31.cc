// BUILD: tools
// C31: what a tool makes of its command line
#include <cstring>
#include "sym.h"
#include "eckit/exception/Exceptions.h"
#include "odc/CommandLineParser.h"
#include "odc/tools/CompareTool.h"
#include "odc/tools/CountTool.h"
#include "odc/tools/LSTool.h"
#include "odc/tools/ODAHeaderTool.h"
#include "odc/tools/SQLTool.h"
#include "odc/tools/SetTool.h"
#include "odc/tools/SplitTool.h"
#include "odc/tools/MergeTool.h"
#include "odc/tools/MDSetTool.h"
#include "odc/tools/ImportTool.h"
#include "odc/tools/IndexTool.h"
#include "odc/tools/CompactTool.h"
#include "odc/tools/FixedSizeRowTool.h"
#include "odc/tools/XYVTool.h"
#include "odc/tools/ToolFactory.h"
using odc::tool::CommandLineParser;
typedef std::vector<std::string> Args;

static bool is(const std::string& s, const char* w) {
    size_t n = strlen(w);
    if (s.size() != n) return false;
    for (size_t i = 0; i < n; i++) if (s[i] != w[i]) return false;
    return true;
}
static void same(const std::string& a, const std::string& b, const char* what) {
    sym::check(a.size() == b.size(), what);
    for (size_t i = 0; i < a.size(); i++) sym::check(a[i] == b[i], what);
}
static std::string word(int lo, int hi) {
    std::string s((size_t)sym::choice(lo, hi), ' ');
    for (auto& c : s) { c = (char)sym::any<uint8_t>(); sym::assume(c != 0); }
    return s;
}
struct Argv {
    std::vector<std::vector<char>> v;
    std::vector<char*> p;
    explicit Argv(const Args& a) {
        for (auto& s : a) { v.emplace_back(s.begin(), s.end()); v.back().push_back(0); }
        for (auto& s : v) p.push_back(s.data());
        p.push_back(nullptr);
    }
};
static const char* OPT[] = {"-a", "-ab", "-b", "-"};
struct Want { bool refused = false; Args params; bool set[4] = {false, false, false, false}, has[4] = {false, false, false, false}; std::string val[4]; };
// the command line read from left to right
static Want read(const Args& a, const bool* reg) {
    Want w;
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i].empty() || a[i][0] != '-' || a[i].size() == 1) { w.params.push_back(a[i]); continue; }
        for (int o = 0; o < 3; o++) {
            if (!is(a[i], OPT[o])) continue;
            w.set[o] = true;
            if (!reg[o]) continue;
            if (i + 1 == a.size()) { w.refused = true; return w; }
            w.has[o] = true;
            w.val[o] = a[++i];
            break;
        }
    }
    return w;
}
static void query(CommandLineParser& p, const Want& w, int first) {
    for (int k = 0; k < 3; k++) {
        int q = (first + k) % 3;
        if (q == 0) {
            Args got = p.parameters();
            sym::check(got.size() == w.params.size(), "number of parameters");
            for (size_t i = 0; i < got.size(); i++) { same(got[i], w.params[i], "a parameter"); same(p.parameters(i), w.params[i], "a parameter by number"); }
        }
        else if (q == 1) for (int o = 0; o < 4; o++) sym::check(p.optionIsSet(OPT[o]) == w.set[o], "an option is set");
        else for (int o = 0; o < 4; o++) same(p.optionArgument(OPT[o], std::string("none")), w.has[o] ? w.val[o] : "none", "argument of an option");
    }
}
static void parse(int n, int maxLen, int copies) {
    Args a;
    int m = n < 0 ? -n : sym::choice(0, n);
    for (int i = 0; i < m; i++) a.push_back(word(n < 0 ? 2 : 0, maxLen));
    bool reg[4] = {sym::flag(), sym::flag(), false, false};
    Argv v(a);
    CommandLineParser p(m, v.p.data());
    for (int o = 0; o < 3; o++) if (reg[o]) p.registerOptionWithArgument(OPT[o]);
    Want w = read(a, reg);
    bool refused = false;
    int copy = copies ? sym::choice(0, 2) : 0, first = sym::choice(0, 2);
    try {
        if (copy == 1) { CommandLineParser c(p); query(c, w, first); }
        if (copy == 2) {
            Argv e({"x", "-b", "y"});
            CommandLineParser c(3, e.p.data());
            if (sym::flag()) c.parameters();
            c = p;
            query(c, w, first);
            CommandLineParser& self = c;
            c = self;
            query(c, w, first);
        }
        query(p, w, first);
    } catch (eckit::Exception&) { refused = true; }
    sym::check(refused == w.refused, w.refused ? "an option without its argument is accepted" : "a good command line is refused");
    sym::reach("done");
}
SYM_CASE(any2) { parse(2, 3, 0); }
SYM_CASE(any3) { parse(3, 2, 0); }
SYM_CASE(copies) { parse(2, 2, 1); }
SYM_CASE(four) { parse(-4, 2, 0); }

// arguments that are numbers
SYM_CASE(numbers) {
    static const char* N[] = {"0", "7", "200", "-3", "2147483647", "-2147483648", "1048576"};
    static const double V[] = {0, 7, 200, -3, 2147483647., -2147483648., 1048576};
    int k = sym::choice(0, 6), l = sym::choice(0, 6), at = sym::choice(0, 2);
    Args a{"f", "g"};
    Args o{"-n", N[k]};
    if (sym::flag()) { o.push_back("-n"); o.push_back(N[l]); k = l; }
    a.insert(a.begin() + at, o.begin(), o.end());
    Argv v(a);
    CommandLineParser p((int)a.size(), v.p.data());
    p.registerOptionWithArgument("-n");
    p.registerOptionWithArgument("-m");
    int dflt = (int)sym::any<int32_t>();
    sym::check(p.optionArgument("-n", (int)1) == (int)V[k], "integer argument");
    sym::check(p.optionArgument("-n", (long)1) == (long)V[k], "long argument");
    sym::check(p.optionArgument("-n", (double)1) == V[k], "real argument");
    sym::check(p.optionArgument("-m", dflt) == dflt, "default of an integer argument");
    sym::check(p.optionArgument("-m", (long)dflt * 4) == (long)dflt * 4, "default of a long argument");
    sym::check(p.optionArgument("-m", (double)dflt) == (double)dflt, "default of a real argument");
    sym::check(p.parameters() == Args({"f", "g"}), "parameters around a numeric option");
    sym::reach("done");
}

// the tool that a command names, and no other
using namespace odc::tool;
template <class T> static bool made(Tool* t) { return dynamic_cast<T*>(t) != nullptr; }
static const struct { const char* name; bool (*made)(Tool*); } TOOLS[] = {
    {"ls", made<LSTool>}, {"set", made<SetTool>}, {"sql", made<SQLTool>}, {"xyv", made<XYVTool>}, {"count", made<CountTool>}, {"index", made<IndexTool>},
    {"merge", made<MergeTool>}, {"mdset", made<MDSetTool>}, {"split", made<SplitTool>}, {"header", made<HeaderTool>}, {"import", made<ImportTool>},
    {"compare", made<CompareTool>}, {"compact", made<CompactTool>}, {"fixrowsize", made<FixedSizeRowTool>}};
static void dispatch(const std::string& name) {
    Tool::registerTools();
    Argv v({name, "p", "-x", "q"});
    int k = -1;
    for (int i = 0; i < 14; i++) if (is(name, TOOLS[i].name)) k = i;
    std::unique_ptr<Tool> t;
    try { t.reset(AbstractToolFactory::createTool(name, 4, v.p.data())); }
    catch (eckit::Exception&) {          // a tool may look at its files at once
        sym::check(k >= 0, "an unknown command is not refused quietly");
        sym::reach("done");
        return;
    }
    sym::check((k >= 0) == (t != nullptr), "a command that there is, or is not");
    if (t) {
        sym::check(TOOLS[k].made(t.get()), "a command starts another tool");
        sym::check(t->parameters().size() == 3 && t->parameters(1) == "p" && t->parameters(2) == "q" && t->optionIsSet("-x"), "the tool does not see its command line");
        same(t->parameters(0), name, "the name of the tool");
    }
    sym::reach("done");
}
SYM_CASE(command) { dispatch(word(0, 3)); }
SYM_CASE(command_near) {
    std::string s = TOOLS[sym::choice(0, 13)].name;
    int at = sym::choice(0, (int)s.size());
    char c = (char)sym::any<uint8_t>();
    sym::assume(c != 0);
    if (at == (int)s.size()) { if (sym::flag()) s.push_back(c); } else s[at] = c;
    dispatch(s);
}
