// BUILD: tools
// C26: the file-to-file tools (compact, fixrowsize, merge, set, mdset, count, import) change what they say and nothing else
#include "memfs.h"
#include "enc.h"
#include "gen.h"
#include "odc/Reader.h"
#include "odc/RowsCounter.h"
#include "odc/core/MetaData.h"
#include "odc/core/TablesReader.h"
#include "odc/tools/CompactTool.h"
#include "odc/tools/CountTool.h"
#include "odc/tools/FixedSizeRowTool.h"
#include "odc/tools/ImportTool.h"
#include "odc/tools/MDSetTool.h"
#include "odc/tools/MergeTool.h"
#include "odc/tools/SetTool.h"
using namespace hs;

template <class T>
static bool tool(std::vector<std::string> a) {
    a.insert(a.begin(), "odc");
    std::vector<char*> p;
    for (auto& s : a) p.push_back(&s[0]);
    bool ok = true;
    try { T t((int)p.size(), p.data()); t.run(); } catch (std::exception&) { ok = false; }
    memfs::exit();
    return ok;
}
typedef GRow Row;
static void expect(const std::string& path, const std::vector<Row>& rows, const char* m) {
    sym::check(memfs::files().count(path), "no output file");
    Mem in(memfs::files()[path]);
    in.openForRead();
    odc::Reader rd(in);
    auto end = rd.end();
    size_t r = 0;
    for (auto it = rd.begin(); it != end; ++it, ++r) {
        sym::check(r < rows.size(), "more rows in the output than expected");
        sym::check(it->columns().size() == rows[r].size(), "columns of the output");
        for (size_t c = 0; c < rows[r].size(); c++) {
            const V& v = rows[r][c].second;
            sym::check(it->columns()[c]->name() == rows[r][c].first, "column name in the output");
            sym::check(it->columns()[c]->type() == v.type, "column type in the output");
            if (v.type == T_STRING) sym::check(it->string(c) == v.s, m);
            else { if (v.type == T_BITFIELD) sym::check(it->columns()[c]->bitfieldDef() == eckit::sql::BitfieldDef({v.member, "y"}, {1, 3}), "bitfield members in the output"); sym::check(it->data(c) == v.d, m); sym::check(it->isMissing(c) == v.missing, "missing in the output"); }
        }
    }
    sym::check(r == rows.size(), "a row is missing from the output");
}
static void put(Gen& g, const std::string& p) { memfs::files()[p].reset(new std::vector<char>(g.file)); }


// a later frame marks missing values by another value, or defines the bitfield differently
static void redefine(Gen& g) {
    int k = sym::choice(0, 2);
    if (k == 1) g.mdi = -7;
    if (k == 2) g.member = "q";
}
static void copy(bool fixed, int frames, bool constants) {
    memfs::reset();
    Gen g;
    g.constants = constants;
    for (int f = 0; f < frames; f++) { g.swap = sym::flag(); g.wide = f == 0; g.order = f && sym::flag(); g.missCell = f && sym::flag() ? 2 : -1; if (f) redefine(g); g.frame(f ? 1 : 2, f ? sym::choice(0, 4) : 3); }
    put(g, "in.odb");
    bool ok = fixed ? tool<odc::tool::FixedSizeRowTool>({"in.odb", "out.odb"}) : tool<odc::tool::CompactTool>({"in.odb", "out.odb"});
    sym::check(ok, "the copy failed");
    expect("out.odb", g.rows, "value changed by the copy");
    sym::reach("done");
}
SYM_CASE(compact) { copy(false, 1, true); }
SYM_CASE(compact2) { copy(false, 2, false); }
SYM_CASE(fixed) { copy(true, 2, false); }

// inputs side by side
static void merge(int n, bool change) {
    memfs::reset();
    std::vector<Gen> g(n);
    std::vector<std::string> args = {"merge", "-o", "out.odb"};
    args.erase(args.begin());
    bool refuse = false;
    size_t rows = 99;
    for (int f = 0; f < n; f++) {
        g[f].suffix = std::string(1, 'A' + f);
        g[f].constants = false;
        g[f].symbolic = f == 0;
        int nr = sym::choice(1, 2);
        g[f].wide = f < 2 && !change;
        g[f].swap = f == 1;
        g[f].frame(nr, f == 0 ? 3 : 2);
        if (change) { g[f].cell++; g[f].order = sym::flag(); g[f].missCell = g[f].cell; redefine(g[f]); g[f].frame(1, sym::choice(1, 4)); }
        put(g[f], "in" + g[f].suffix);
        args.push_back("in" + g[f].suffix);
        rows = std::min(rows, g[f].rows.size());
    }
    // a change of the columns within the rows that are merged is refused
    for (auto& x : g) if (x.order) for (size_t r = 0; r < rows; r++) if (x.rows[r][0].first[0] != 'i') refuse = true;
    std::vector<Row> w;
    for (size_t r = 0; r < rows; r++) {
        Row row;
        for (auto& x : g) row.insert(row.end(), x.rows[r].begin(), x.rows[r].end());
        w.push_back(row);
    }
    bool ok = tool<odc::tool::MergeTool>(args);
    sym::check(ok == !refuse, refuse ? "a change of the columns of an input was not refused" : "the merge failed");
    if (ok) expect("out.odb", w, "value changed by the merge");
    sym::reach("done");
}
SYM_CASE(merge2) { merge(2, false); }
SYM_CASE(merge2c) { merge(2, true); }
SYM_CASE(merge3) { merge(3, false); }
// strings become wider and narrower again along an input
SYM_CASE(merge_widths) {
    memfs::reset();
    Gen a, b;
    a.constants = b.constants = false;
    a.symbolic = b.symbolic = b.wide = false;
    a.suffix = "A"; b.suffix = "B";
    a.frame(1, sym::choice(1, 4));
    a.frame(1, sym::choice(1, 4));
    b.frame(2, 0);
    put(a, "a"); put(b, "b");
    std::vector<Row> w;
    for (int r = 0; r < 2; r++) { w.push_back(a.rows[r]); w[r].insert(w[r].end(), b.rows[r].begin(), b.rows[r].end()); }
    sym::check(tool<odc::tool::MergeTool>({"-o", "out.odb", "a", "b"}), "the merge failed");
    expect("out.odb", w, "value changed by the merge");
    sym::reach("done");
}
// a column changes its type along an input: refused, or every row keeps its own type
SYM_CASE(merge_type) {
    memfs::reset();
    const int types[] = {T_INT, T_REAL, T_DOUBLE, T_BITFIELD, T_STRING};
    int ty[2] = {types[sym::choice(0, 4)], types[sym::choice(0, 4)]};
    double v[2] = {4, 6};
    std::vector<char> fa, fb;
    std::vector<Row> w;
    for (int f = 0; f < 2; f++) {
        FFrame a;
        a.rows = 1;
        FCol c = fcol("x", ty[f], ty[f] == T_STRING ? "constant_string" : "constant", v[f], v[f], -9);
        if (ty[f] == T_STRING) memcpy(c.cchars, f ? "two" : "one", 3);
        if (ty[f] == T_BITFIELD) { c.bfNames = {"x", "y"}; c.bfSizes = {1, 3}; }
        a.cols = {c};
        a.data.marker(0);
        append(fa, a.bytes());
        FFrame b;
        b.rows = 1;
        b.cols = {fcol("z", T_INT, "constant", 3 + f, 3 + f, -9)};
        b.data.marker(0);
        append(fb, b.bytes());
        V x, z;
        x.type = ty[f]; x.d = v[f]; x.s = f ? "two" : "one";
        z.type = T_INT; z.d = 3 + f;
        w.push_back({{"x", x}, {"z", z}});
    }
    memfs::files()["a"].reset(new std::vector<char>(fa));
    memfs::files()["b"].reset(new std::vector<char>(fb));
    bool swapped = sym::flag();
    if (swapped) for (auto& r : w) std::swap(r[0], r[1]);
    bool ok = tool<odc::tool::MergeTool>({"-o", "out.odb", swapped ? "b" : "a", swapped ? "a" : "b"});
    if (ty[0] == ty[1]) sym::check(ok, "the merge failed");
    if (ok) expect("out.odb", w, "value changed by the merge");
    sym::reach("done");
}
SYM_CASE(merge_same) {
    memfs::reset();
    Gen a, b;
    a.constants = b.constants = false;
    b.wide = false;
    a.frame(1, 0);
    b.suffix = sym::flag() ? "" : "2";
    b.frame(1, 0);
    put(a, "a"); put(b, "b");
    bool ok = tool<odc::tool::MergeTool>({"a", "b", "-o", "out"});
    sym::check(ok == !b.suffix.empty(), "columns of the same name in two inputs");
    sym::reach("done");
}

// odc set
static void set(int nframes, bool constants) {
    struct A { const char* text; char col; double d; const char* s; };
    static const A AS[] = {{"i=7", 'i', 7, ""}, {"i=300000", 'i', 300000, ""}, {"d=-0.5", 'd', -0.5, ""}, {"s='NEW'", 's', 0, "     NEW"}, {"s='8 chars.'", 's', 0, "8 chars."},
                           {"b=5", 'b', 5, ""}, {"d=0x000000000000f03f", 'd', 1.0, ""}, {"k=17", 'k', 17, ""}, {"n='changed'", 'n', 0, " changed"}, {"l='abcdefgh'", 'l', 0, "abcdefgh"}};
    memfs::reset();
    Gen g;
    g.constants = constants;
    for (int f = 0; f < nframes; f++) { g.wide = f == 0; g.swap = sym::flag(); g.order = f && sym::flag(); g.missCell = f && sym::flag() ? 2 : -1; g.props["p"] = f ? "second" : "first"; g.frame(f ? 1 : 2, f ? sym::choice(1, 4) : 2); }
    put(g, "in");
    int a = sym::choice(0, constants ? 9 : 6), b = sym::choice(-1, 3);
    std::string list = AS[a].text;
    if (b >= 0) { sym::assume(AS[b].col != AS[a].col); list += std::string(",") + AS[b].text; }
    for (auto& row : g.rows)
        for (auto& kv : row)
            for (int k : {a, b}) if (k >= 0 && AS[k].col == kv.first[0]) { kv.second.d = AS[k].d; kv.second.s = AS[k].s; kv.second.missing = false; }
    sym::check(tool<odc::tool::SetTool>({list, "in", "out"}), "set failed");
    expect("out", g.rows, "value after set");
    sym::reach("done");
}
SYM_CASE(set1) { set(1, false); }
SYM_CASE(set1k) { set(1, true); }
SYM_CASE(set2) { set(2, false); }
SYM_CASE(set_unknown) {
    memfs::reset();
    Gen g;
    g.frame(1, 1);
    put(g, "in");
    sym::check(!tool<odc::tool::SetTool>({"nosuch=1", "in", "out"}), "set of an unknown column was accepted");
    sym::reach("done");
}

// odc mdset: metadata only; the data are copied as they are
static void mdset(int nframes, bool sym2) {
    struct A { const char* text; char col; int type; int what; double d; const char* s; };
    enum { VAL = 1, STR = 2, BITS = 4, BAD = 8 };
    static const A AS[] = {{"k=7", 'k', 0, VAL, 7, ""}, {"k:REAL=7.5", 'k', T_REAL, VAL, 7.5, ""}, {"k:double", 'k', T_DOUBLE, 0, 0, ""}, {"n='NEWVALUE'", 'n', 0, STR, 0, "NEWVALUE"}, {"n='abc'", 'n', 0, STR, 0, "     abc"},
                           {"i:REAL", 'i', T_REAL, 0, 0, ""}, {"d:REAL", 'd', T_REAL, 0, 0, ""}, {"l='NEW'", 'l', 0, BAD, 0, ""}, {"i=5", 'i', 0, BAD, 0, ""}, {"nosuch=1", '?', 0, BAD, 0, ""}, {"s='x'", 's', 0, BAD, 0, ""}, {"k:INTEGER=-3", 'k', T_INT, VAL, -3, ""}};
    memfs::reset();
    Gen g;
    for (int f = 0; f < nframes; f++) { g.wide = f == 0; g.swap = sym::flag(); g.order = f && sym::flag(); g.missCell = f && sym::flag() ? 2 : -1; g.props["p"] = f ? "second" : "first"; g.frame(f ? 1 : 2, f ? sym::choice(1, 4) : 2); }
    put(g, "in");
    int a = sym::choice(0, 11), b = sym2 ? sym::choice(-1, 6) : -1;
    std::string list = AS[a].text;
    if (b >= 0) { sym::assume(AS[b].col != AS[a].col); list += std::string(",") + AS[b].text; }
    bool bad = false;
    for (int k : {a, b}) if (k >= 0 && AS[k].what == BAD) bad = true;
    for (auto& row : g.rows)
        for (auto& kv : row)
            for (int k : {a, b}) if (k >= 0 && AS[k].col == kv.first[0]) {
                if (AS[k].type) kv.second.type = AS[k].type;
                if (AS[k].what == VAL) kv.second.d = AS[k].d;
                if (AS[k].what == STR) kv.second.s = AS[k].s;
            }
    bool ok = tool<odc::tool::MDSetTool>({list, "in", "out"});
    sym::check(ok == !bad, bad ? "an update that cannot be done was accepted" : "mdset failed");
    if (ok) {
        expect("out", g.rows, "value after mdset");
        Mem res(memfs::files()["out"]);
        res.openForRead();
        odc::core::TablesReader rd(res);
        int f = 0;
        for (auto it = rd.begin(), end = rd.end(); it != end; ++it, ++f) {
            sym::check(it->properties() == odc::core::Properties{{"p", f ? "second" : "first"}}, "properties after mdset");
            for (auto* c : it->columns()) if (c->name() == "b") {
                sym::check(c->bitfieldDef().first == std::vector<std::string>({"x", "y"}), "bitfield names after mdset");
                sym::check(c->bitfieldDef().second == std::vector<int>({1, 3}), "bitfield sizes after mdset");
            }
        }
        sym::check(f == nframes, "frames after mdset");
    }
    sym::reach("done");
}
SYM_CASE(mdset1) { mdset(1, false); }
SYM_CASE(mdset1b) { mdset(1, true); }
SYM_CASE(mdset2) { mdset(2, false); }
// odc count: the row counts of all frames of all inputs
// frames without rows, anywhere, or nothing else
static void empties(int which) {
    memfs::reset();
    Gen g, h;
    g.constants = h.constants = g.wide = h.wide = g.symbolic = h.symbolic = false;
    h.suffix = "2";
    int nf = sym::choice(1, 3);
    for (int f = 0; f < nf; f++) { g.swap = f == 1; g.frame(sym::choice(0, 2), 2); }
    h.frame(2, 2);
    put(g, "in.odb"); put(h, "two.odb");
    std::vector<Row> want = g.rows;
    bool ok = false;
    if (which == 0) ok = tool<odc::tool::CompactTool>({"in.odb", "out.odb"});
    if (which == 1) ok = tool<odc::tool::FixedSizeRowTool>({"in.odb", "out.odb"});
    if (which == 2) { ok = tool<odc::tool::SetTool>({"d=7.5", "in.odb", "out.odb"}); for (auto& r : want) r[2].second.d = 7.5; }
    if (which == 3) { ok = tool<odc::tool::MDSetTool>({"d:real", "in.odb", "out.odb"}); for (auto& r : want) r[2].second.type = T_REAL; }
    if (which == 4) {
        ok = tool<odc::tool::MergeTool>({"-o", "out.odb", "in.odb", "two.odb"});
        want.resize(std::min(want.size(), h.rows.size()));
        for (size_t r = 0; r < want.size(); r++) want[r].insert(want[r].end(), h.rows[r].begin(), h.rows[r].end());
    }
    sym::check(ok, "a tool fails on frames without rows");
    expect("out.odb", want, "value changed by a tool");
    sym::reach("done");
}
SYM_CASE(empties_compact) { empties(0); }
SYM_CASE(empties_fixed) { empties(1); }
SYM_CASE(empties_set) { empties(2); }
SYM_CASE(empties_mdset) { empties(3); }
SYM_CASE(empties_merge) { empties(4); }

SYM_CASE(count) {
    memfs::reset();
    int nf = sym::choice(0, 3);
    std::vector<char> file;
    unsigned long long n = 0;
    for (int f = 0; f < nf; f++) {
        FFrame fr(sym::flag());
        fr.cols.push_back(fcol("k@t", T_INT, "constant", 1, 1));
        int32_t rows = sym::any<int32_t>();
        sym::assume(rows >= 0);
        fr.rows = rows;
        for (int k = 0; k < 3; k++) fr.data.u8(k);     // the data are not looked at
        n += rows;
        append(file, fr.bytes());
    }
    memfs::files()["in"].reset(new std::vector<char>(file));
    sym::check(odc::tool::CountTool::rowCount("in") == n, "count");
    sym::check(odc::RowsCounter::fastRowCount("in") == n, "count (RowsCounter)");
    sym::reach("done");
}

// odc import with every delimiter option
SYM_CASE(import) {
    memfs::reset();
    static const char* OPT[] = {nullptr, ",", ";", "TAB", "tab", "SPACE", "|", "z", "X"};
    static const char* DEL[] = {",", ",", ";", "\t", "\t", " ", "|", "z", "X"};
    int k = sym::choice(0, 8);
    std::string d = DEL[k];
    std::string t = "i:INTEGER" + d + "s:STRING" + d + "d:DOUBLE\n";
    std::vector<Row> rows;
    static const char* W[] = {"x", "'more than eight'", "NULL"};
    static const char* WV[] = {"x", "more than eight", ""};
    if (k == 5) W[1] = "'more-than-eight'", WV[1] = "more-than-eight";
    for (int r = 0; r < 2; r++) {
        int w = sym::choice(0, 2), n = sym::choice(0, 1);
        t += (n ? "NULL" : "-5") + d + W[w] + d + "2.5\n";
        V i, s, x;
        i.d = n ? 2147483647 : -5; i.missing = n; s.type = T_STRING; s.s = WV[w]; x.type = T_DOUBLE; x.d = 2.5;
        rows.push_back({{"i", i}, {"s", s}, {"d", x}});
    }
    memfs::files()["in"].reset(new std::vector<char>(t.begin(), t.end()));
    std::vector<std::string> a;
    if (OPT[k]) { a.push_back("-d"); a.push_back(OPT[k]); }
    a.push_back("in"); a.push_back("out");
    sym::check(tool<odc::tool::ImportTool>(a), "import failed");
    expect("out", rows, "value after import");
    sym::reach("done");
}
