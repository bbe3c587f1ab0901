// BUILD: tools
// C25: columns are found by full name, else by the unqualified name if only one column has it; anything else is refused
#include "memfs.h"
#include "enc.h"
#include "odbfile.h"
#include "odc/Reader.h"
#include "odc/core/Exceptions.h"
#include "odc/core/MetaData.h"
#include "odc/core/TablesReader.h"
#include "odc/tools/MDSetTool.h"
#include "odc/tools/SetTool.h"
#include "odc/tools/SplitTool.h"
using namespace hs;
using namespace odc::api;

enum { NOTFOUND = -1, AMBIGUOUS = -2 };
static bool qualified(const std::string& full, const std::string& n) { return full.size() > n.size() && full[n.size()] == '@' && memcmp(full.data(), n.data(), n.size()) == 0; }
// what a name stands for
static int which(const std::vector<std::string>& cols, const std::string& n) {
    int exact = 0, e = 0, match = 0, m = 0;
    for (size_t i = 0; i < cols.size(); i++) {
        bool ex = cols[i] == n, q = qualified(cols[i], n);
        exact += ex; e += ex * (int)i;
        match += q; m += q * (int)i;
    }
    if (exact == 1) return e;
    if (exact > 1) return AMBIGUOUS;
    return match == 1 ? m : match ? AMBIGUOUS : NOTFOUND;
}
static std::string text(int lo, int hi) {
    std::string s(sym::choice(lo, hi), ' ');
    sym::bytes(&s[0], s.size());
    return s;
}
// one '@' at most, and something before it: the names that columns have
static void sane(const std::string& s) {
    int at = 0;
    for (char c : s) at += c == '@';
    sym::assume(at <= 1 && s[0] != '@' && s[0] != 0);
    for (char c : s) sym::assume(c != 0);
}

// any names, whatever the characters: MetaData
static void metadata(int lo, int hi, bool third) {
    std::vector<std::string> cols{text(lo, hi), text(lo, hi)};
    if (third) cols.push_back("ab@c");
    std::string n = text(1, 3);
    odc::core::MetaData md;
    md.setSize(cols.size());
    for (size_t i = 0; i < cols.size(); i++) { md[i]->name(cols[i]); md[i]->type<odc::core::SameByteOrder>(INTEGER); }
    int w = which(cols, n), got = -3;
    try { got = (int)md.columnIndex(n); }
    catch (odc::core::AmbiguousColumnException&) { got = AMBIGUOUS; }
    catch (odc::core::ColumnNotFoundException&) { got = NOTFOUND; }
    sym::check(got == w, "columnIndex");
    sym::check(md.hasColumn(n) == (w != NOTFOUND), "hasColumn");
    odc::core::Column* c = nullptr;
    try { c = md.columnByName(n); } catch (std::exception&) {}
    sym::check(c == (w >= 0 ? md[w] : nullptr), "columnByName");
    sym::reach("done");
}
SYM_CASE(md13) { metadata(1, 3, false); }
SYM_CASE(md34) { metadata(3, 4, false); }
SYM_CASE(md_three) { metadata(1, 2, true); }

// a frame of constant and other columns with those names: decode, span
static std::vector<char> file(const std::vector<std::string>& cols, bool constants, int base, bool swap = false) {
    FFrame f(swap);
    f.rows = 2;
    for (size_t i = 0; i < cols.size(); i++) f.cols.push_back(constants ? fcol(cols[i], T_INT, "constant", base + (int)i, base + (int)i) : fcol(cols[i], T_INT, "int8", base, base + 255));
    for (int r = 0; r < 2; r++) {
        f.data.marker(0);
        if (!constants) for (size_t i = 0; i < cols.size(); i++) f.data.u8((uint8_t)(i + 10 * r));
    }
    return f.bytes();
}
struct Got : SpanVisitor {
    std::map<std::string, std::set<long>> i;
    void operator()(const std::string& c, const std::set<long>& v) override { i[c] = v; }
    void operator()(const std::string&, const std::set<double>&) override { sym::fail("span reports reals"); }
    void operator()(const std::string&, const std::set<std::string>&) override { sym::fail("span reports strings"); }
};
static void frame(const std::vector<std::string>& cols, const std::string& n, bool constants, bool aggregated) {
    std::vector<char> b = file(cols, constants, 100);
    Mem m(b);
    m.openForRead();
    Reader rd(m, aggregated);
    Frame fr = rd.next();
    int w = which(cols, n);
    sym::check(fr.hasColumn(n) == (w != NOTFOUND), "Frame::hasColumn");
    int64_t buf[3] = {-5, -5, -5};
    std::vector<StridedData> sd{StridedData(buf, 2, 8, 8)};
    for (int again = 0; again < 2; again++) {
        bool ok = true;
        try { Decoder(std::vector<std::string>{n}, sd).decode(fr); } catch (std::exception&) { ok = false; }
        sym::check(ok == (w >= 0), w == AMBIGUOUS ? "an ambiguous name is decoded" : w < 0 ? "an unknown name is decoded" : "a column is not found by decode");
        if (ok)
            for (int r = 0; r < 2; r++) sym::check(dbl(buf[r]) == 100 + w + (constants ? 0 : 10 * r), "decode takes another column");
        else
            sym::check(buf[0] == -5 && buf[1] == -5, "a refused request writes");
        sym::check(buf[2] == -5, "decode writes past the column");
    }
    Got g;
    bool ok = true;
    try { fr.span({n}, constants).visit(g); } catch (std::exception&) { ok = false; }
    sym::check(ok == (w >= 0), w == AMBIGUOUS ? "span of an ambiguous name" : w < 0 ? "span of an unknown name" : "a column is not found by span");
    if (ok) {
        std::set<long> want{100 + w};
        if (!constants) want.insert(110 + w);
        sym::check(g.i.size() == 1 && g.i.begin()->first == n && g.i.begin()->second == want, "span takes another column");
    }
    sym::reach("done");
}
SYM_CASE(frame2) {
    std::vector<std::string> cols{text(1, 3), text(1, 3)};
    for (auto& c : cols) sane(c);
    std::string n = text(1, 3);
    sane(n);
    sym::assume(cols[0] != cols[1]);
    frame(cols, n, false, false);
}
static const char* NAMES[] = {"ab", "ab@x", "ab@y", "abc@x", "abc", "a@x", "a", "b@x", "ab@xy", "x", "x@ab"};
// a name asked for: any letters with or without a table
static std::string anyName(int lo, int hi) {
    std::string s = text(lo, hi);
    bool ok = s[0] != '@';
    int at = 0;
    for (char c : s) { at += c == '@'; ok &= (c >= 'a') & (c <= 'z') | (c == '@'); }
    sym::assume(ok & (at <= 1));
    return s;
}
static std::vector<std::string> pick(int n, int max = 10) {
    std::vector<std::string> cols;
    int last = -1;
    for (int i = 0; i < n; i++) { last = sym::choice(last + 1, max - (n - 1 - i)); cols.push_back(NAMES[last]); }
    if (sym::flag()) std::swap(cols[0], cols[n - 1]);
    return cols;
}
SYM_CASE(frame3) {
    auto cols = pick(3, 8);
    bool constants = sym::flag();
    frame(cols, anyName(1, 4), constants, constants);
}
// frames whose columns come in another order: a name stands for the same column in all of them
SYM_CASE(aggregated) {
    auto cols = pick(2);
    std::vector<std::string> two{cols[1], cols[0]};
    std::string n = anyName(1, 4);
    bool constants = sym::flag(), swap = constants;
    std::vector<char> b = file(cols, constants, 100, swap);
    append(b, file(two, constants, 200, swap));
    Mem m(b);
    m.openForRead();
    Reader rd(m, true);
    Frame fr = rd.next();
    sym::check(fr.rowCount() == 4, "not aggregated");
    int w = which(cols, n), w2 = which(two, n);
    int64_t buf[5] = {-5, -5, -5, -5, -5};
    std::vector<StridedData> sd{StridedData(buf, 4, 8, 8)};
    bool ok = true;
    try { Decoder(std::vector<std::string>{n}, sd).decode(fr); } catch (std::exception&) { ok = false; }
    sym::check(ok == (w >= 0), "decode of aggregated frames");
    if (ok)
        for (int r = 0; r < 4; r++) sym::check(dbl(buf[r]) == (r < 2 ? 100 + w : 200 + w2) + (constants ? 0 : 10 * (r % 2)), "decode takes another column");
    sym::check(buf[4] == -5, "decode writes past the column");
    Got g;
    ok = true;
    try { fr.span({n}, false).visit(g); } catch (std::exception&) { ok = false; }
    sym::check(ok == (w >= 0), "span of aggregated frames");
    if (ok) {
        std::set<long> want{100 + w, 200 + w2};
        if (!constants) { want.insert(110 + w); want.insert(210 + w2); }
        sym::check(g.i.size() == 1 && g.i[n] == want, "span takes another column");
    }
    sym::reach("done");
}
// two names in one request
SYM_CASE(request2) {
    auto cols = pick(3, 5);
    std::vector<char> b = file(cols, false, 100);
    Mem m(b);
    m.openForRead();
    Reader rd(m);
    Frame fr = rd.next();
    std::vector<std::string> n{anyName(1, 4), NAMES[sym::choice(0, 10)]};
    int w[2] = {which(cols, n[0]), which(cols, n[1])};
    int64_t buf[2][3];
    for (auto& x : buf) for (auto& y : x) y = -5;
    std::vector<StridedData> sd{StridedData(buf[0], 2, 8, 8), StridedData(buf[1], 2, 8, 8)};
    bool ok = true;
    try { Decoder(n, sd).decode(fr); } catch (std::exception&) { ok = false; }
    sym::check(ok == (w[0] >= 0 && w[1] >= 0 && w[0] != w[1]), "request of two names");
    for (int k = 0; k < 2; k++) {
        if (ok) for (int r = 0; r < 2; r++) sym::check(dbl(buf[k][r]) == 100 + w[k] + 10 * r, "decode takes another column");
        sym::check(buf[k][2] == -5, "decode writes past the column");
    }
    sym::reach("done");
}
// a frame with the same name twice is refused however often it is asked
SYM_CASE(duplicate) {
    std::vector<std::string> cols{"a", "b", "c", "d"};
    int i = sym::choice(0, 2), j = sym::choice(1, 3);
    sym::assume(i < j);
    cols[j] = cols[i];
    std::vector<char> b = file(cols, false, 100);
    Mem m(b);
    m.openForRead();
    Reader rd(m, sym::flag());
    std::string n = cols[sym::choice(0, 3)];
    for (int again = 0; again < 3; again++) {
        bool ok = true;
        int64_t buf[2] = {-5, -5};
        std::vector<StridedData> sd{StridedData(buf, 2, 8, 8)};
        try { Frame fr = again == 2 ? Frame() : rd.next(); if (!fr) break; for (int k = 0; k < 2; k++) { ok = true; try { Decoder(std::vector<std::string>{n}, sd).decode(fr); } catch (std::exception&) { ok = false; } sym::check(!ok, "a frame with two columns of the same name is decoded"); } } catch (std::exception&) {}
    }
    sym::reach("done");
}

// the tools that take column names
template <class T>
static bool tool(std::vector<std::string> a) {
    a.insert(a.begin(), "odc");
    std::vector<char*> p;
    for (auto& s : a) p.push_back(&s[0]);
    bool ok = true;
    try { T t((int)p.size(), p.data()); t.run(); } catch (std::exception&) { ok = false; }
    memfs::exit();
    return ok;
}
static std::vector<std::vector<double>> rowsOf(const std::string& path) {
    std::vector<std::vector<double>> v;
    Mem in(memfs::files()[path]);
    in.openForRead();
    odc::Reader rd(in);
    auto end = rd.end();
    for (auto it = rd.begin(); it != end; ++it) {
        v.emplace_back();
        for (size_t c = 0; c < it->columns().size(); c++) v.back().push_back(it->data(c));
    }
    return v;
}
static void onTool(int k) {
    memfs::reset();
    auto cols = pick(2);
    // (of split, the name becomes part of a path)
    static const char* MORE[] = {"ab", "ab@x", "ab@y", "abc@x", "abc", "a@x", "a", "b@x", "ab@xy", "x", "x@ab", "ab@z", "y", "b", "abcd", "a@"};
    std::string n = k == 2 ? MORE[sym::choice(0, 15)] : anyName(1, 4);
    bool constants = k == 1;
    std::vector<char> b = file(cols, constants, 100);
    bool second = k != 2 && sym::flag();
    std::vector<std::string> two{cols[1], cols[0]};
    if (second) append(b, file(two, constants, 200));
    memfs::files()["in"].reset(new std::vector<char>(b));
    int w = which(cols, n);
    bool ok = k == 0 ? tool<odc::tool::SetTool>({n + "=7", "in", "out"}) : k == 1 ? tool<odc::tool::MDSetTool>({n + "=7", "in", "out"}) : tool<odc::tool::SplitTool>({"in", "out.{" + n + "}"});
    sym::check(ok == (w >= 0), w == AMBIGUOUS ? "the tool accepts an ambiguous name" : w < 0 ? "the tool accepts an unknown name" : "the tool refuses a column");
    if (!ok) { sym::reach("done"); return; }
    if (k == 2) {
        for (int r = 0; r < 2; r++) {
            std::string f = "out." + std::to_string(100 + w + 10 * r);
            sym::check(memfs::files().count(f), "split by another column");
            auto v = rowsOf(f);
            sym::check(v.size() == 1 && v[0].size() == 2 && v[0][0] == 100 + 10 * r && v[0][1] == 101 + 10 * r, "rows of a split file");
        }
    } else {
        auto v = rowsOf("out");
        sym::check(v.size() == (second ? 4 : 2), "rows of the output");
        for (size_t r = 0; r < v.size(); r++) {
            int u = r < 2 ? w : 1 - w;
            for (int c = 0; c < 2; c++) sym::check(v[r][c] == (c == u ? 7 : (r < 2 ? 100 : 200) + c + (constants ? 0 : 10 * (int)(r % 2))), "another column is changed");
        }
    }
    sym::reach("done");
}
SYM_CASE(set) { onTool(0); }
SYM_CASE(mdset) { onTool(1); }
SYM_CASE(split) { onTool(2); }
