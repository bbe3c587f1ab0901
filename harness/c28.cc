// BUILD: tools
// C28: what odc ls, odc header -offsets, odc header -ddl and odc count print is what the file holds
#include <cmath>
#include <sstream>
#include "memfs.h"
#include "gen.h"
#include "eckit/log/Log.h"
#include "odc/Reader.h"
#include "odc/tools/CountTool.h"
#include "odc/tools/LSTool.h"
#include "odc/tools/ODAHeaderTool.h"
using namespace hs;
static bool sameNum(double a, double b) { return memcmp(&a, &b, 8) == 0; }

// Numbers put into a stream: the text gets a placeholder, the number itself is kept.  (The formatting is libstdc++'s.)
struct Num { char kind; long i; double d; bool fixed; };
static std::vector<Num>& nums() { static std::vector<Num> v; return v; }
static bool capturing = false;
static std::ostream& put(std::ostream& s, const Num& n, bool isUnsigned = false) {
    if (!capturing) {                    // as without the hooks
        auto& f = std::use_facet<std::num_put<char>>(s.getloc());
        std::ostreambuf_iterator<char> o(s);
        if (n.kind == 'd') f.put(o, s, s.fill(), n.d);
        else if (isUnsigned) f.put(o, s, s.fill(), (unsigned long)n.i);
        else f.put(o, s, s.fill(), n.i);
        s.width(0);
        return s;
    }
    char b[3] = {'\x01', (char)(' ' + nums().size()), '\x02'};
    nums().push_back(n);
    return s.write(b, 3);
}
std::ostream& hookInt(std::ostream* s, int v) __asm__("_ZNSolsEi");
std::ostream& hookInt(std::ostream* s, int v) { return put(*s, {'i', v, 0, false}); }
std::ostream& hookLong(std::ostream* s, long v) __asm__("_ZNSo9_M_insertIlEERSoT_");
std::ostream& hookLong(std::ostream* s, long v) { return put(*s, {'i', v, 0, false}); }
std::ostream& hookULong(std::ostream* s, unsigned long v) __asm__("_ZNSo9_M_insertImEERSoT_");
std::ostream& hookULong(std::ostream* s, unsigned long v) { return put(*s, {'i', (long)v, 0, false}, true); }
std::ostream& hookLL(std::ostream* s, long long v) __asm__("_ZNSo9_M_insertIxEERSoT_");
std::ostream& hookLL(std::ostream* s, long long v) { return put(*s, {'i', (long)v, 0, false}); }
std::ostream& hookULL(std::ostream* s, unsigned long long v) __asm__("_ZNSo9_M_insertIyEERSoT_");
std::ostream& hookULL(std::ostream* s, unsigned long long v) { return put(*s, {'i', (long)v, 0, false}, true); }
std::ostream& hookDouble(std::ostream* s, double v) __asm__("_ZNSo9_M_insertIdEERSoT_");
std::ostream& hookDouble(std::ostream* s, double v) { return put(*s, {'d', 0, v, (s->flags() & std::ios::floatfield) == std::ios::fixed && s->precision() == 6}); }

// what was printed: compared piece by piece
struct Text {
    std::string s; size_t at = 0;
    bool is(const std::string& w) const { return s.compare(at, w.size(), w) == 0; }
    void want(const std::string& w, const char* what) { sym::check(is(w), what); at += w.size(); }
    // a number, either kept or printed by other means
    void wantInt(long v, const char* what) {
        if (at < s.size() && s[at] == '\x01') { const Num& n = nums().at(s[at + 1] - ' '); sym::check(n.kind == 'i' && n.i == v, what); at += 3; return; }
        size_t e = at;
        while (e < s.size() && (s[e] == '-' || isdigit((unsigned char)s[e]))) e++;
        sym::check(e > at && atol(s.substr(at, e - at).c_str()) == v, what);
        at = e;
    }
    void wantDouble(double v, const char* what) {
        if (at < s.size() && s[at] == '\x01') { const Num& n = nums().at(s[at + 1] - ' '); sym::check(n.kind == 'd' && sameNum(n.d, v) && n.fixed, what); at += 3; return; }
        char b[400];
        snprintf(b, sizeof b, "%f", v);
        want(b, what);
    }
    void end() { sym::check(at == s.size(), "more is printed than the file holds"); }
};
struct Capture {
    std::ostringstream out;
    std::streambuf* was;
    Capture() { nums().clear(); static std::ostringstream log; eckit::Log::info().setStream(log); was = std::cout.rdbuf(out.rdbuf()); capturing = true; }
    ~Capture() { std::cout.rdbuf(was); capturing = false; }
    Text text() { std::cout.flush(); return Text{out.str()}; }
};
static void rowsText(Text& t, const std::vector<GRow>& rows, const std::vector<size_t>& starts) {
    std::string cols;
    for (size_t r = 0; r < rows.size(); r++) {
        std::string c;
        for (auto& kv : rows[r]) c += (c.empty() ? "" : "\t") + kv.first;
        bool first = false;
        for (size_t s : starts) first |= s == r;
        // the names: where they change
        if (c != cols) t.want(c + "\n", "the names of the columns");
        else if (first && t.is(c + "\n")) t.want(c + "\n", "");
        cols = c;
        for (size_t k = 0; k < rows[r].size(); k++) {
            const V& v = rows[r][k].second;
            if (k) t.want("\t", "the separation of the columns");
            if (v.missing) { t.want(".", "a missing value"); continue; }
            if (v.type == T_STRING) { t.want("'" + v.s + "'", "a string"); continue; }
            if (v.type == T_DOUBLE || v.type == T_REAL) t.wantDouble(v.d, "a real number");
            else t.wantInt((long)v.d, "an integer");
        }
        t.want("\n", "the end of a row");
    }
    t.end();
}
static void ls(int nf, bool constants) {
    memfs::reset();
    Gen g;
    g.constants = constants;
    std::vector<size_t> starts;
    for (int f = 0; f < nf; f++) {
        g.wide = f == 0; g.swap = sym::flag(); g.order = f && sym::flag(); g.missCell = f && sym::flag() ? 2 : -1; g.mdi = f && sym::flag() ? -7 : -1;
        starts.push_back(g.rows.size());
        g.frame(f ? sym::choice(1, 2) : 2, f ? 4 : 2);
    }
    memfs::files()["in"].reset(new std::vector<char>(g.file));
    char* a[] = {(char*)"ls", (char*)"in", nullptr};
    odc::tool::LSTool t(2, a);
    if (sym::flag()) {
        Capture c;
        t.run();
        Text x = c.text();
        rowsText(x, g.rows, starts);
    } else {
        std::ostringstream o;
        nums().clear();
        capturing = true;
        unsigned long long n = t.printData("in", o);
        capturing = false;
        sym::check(n == g.rows.size(), "number of rows reported");
        Text x{o.str()};
        rowsText(x, g.rows, starts);
    }
    sym::reach("done");
}
SYM_CASE(ls1) { ls(1, true); }
SYM_CASE(ls2) { ls(2, false); }
// numbers of any value
SYM_CASE(ls_numbers) {
    memfs::reset();
    FFrame f(sym::flag());
    int32_t miss = sym::flag() ? 2147483647 : -5;
    bool has = sym::flag();
    f.rows = 1;
    f.cols = {fcol("i@t", T_INT, "int32", 0, 0, miss, has), fcol("d@t", T_DOUBLE, "long_real", 0, 0, -2147483647., 1), fcol("r@t", T_REAL, "long_real", 0, 0, -2147483647., 0), fcol("b@t", T_BITFIELD, "int32", 0, 0, 0, 0)};
    f.cols[3].bfNames = {"x", "y"}; f.cols[3].bfSizes = {1, 31};
    int32_t i = sym::any<int32_t>(), b = sym::any<int32_t>();
    double d = sym::any<double>(), r = sym::any<double>();
    f.data.marker(0);
    f.data.i32(i); f.data.f64(d); f.data.f64(r); f.data.i32(b);
    memfs::files()["in"].reset(new std::vector<char>(f.bytes()));
    char* a[] = {(char*)"ls", (char*)"in", nullptr};
    odc::tool::LSTool t(2, a);
    Capture c;
    t.run();
    Text x = c.text();
    x.want("i@t\td@t\tr@t\tb@t\n", "the names of the columns");
    if (has && i == miss) x.want(".", "a missing value"); else x.wantInt(i, "an integer");
    x.want("\t", "the separation of the columns");
    if (d == -2147483647.) x.want(".", "a missing value"); else x.wantDouble(d, "a real number");
    x.want("\t", "the separation of the columns");
    x.wantDouble(r, "a real number");
    x.want("\t", "the separation of the columns");
    x.wantInt(b, "a bitfield");
    x.want("\n", "the end of a row");
    x.end();
    sym::reach("done");
}
// position, length, rows and columns of every frame; the data is not looked at
SYM_CASE(offsets) {
    memfs::reset();
    std::vector<char> file;
    struct Fr { long begin, length, rows, cols; };
    std::vector<Fr> fr;
    int nf = sym::choice(1, 3);
    for (int k = 0; k < nf; k++) {
        FFrame f(sym::flag());
        int32_t rows = sym::any<int32_t>();
        sym::assume(rows >= 0);
        f.rows = rows;
        int nc = sym::choice(1, 3), nd = sym::choice(0, 2);
        for (int c = 0; c < nc; c++) f.cols.push_back(fcol("c" + std::to_string(c), T_INT, "int8", 0, 255));
        for (int d = 0; d < nd; d++) f.data.u8(7);
        auto v = f.bytes();
        fr.push_back({(long)file.size(), (long)v.size(), rows, nc});
        file.insert(file.end(), v.begin(), v.end());
    }
    memfs::files()["in"].reset(new std::vector<char>(file));
    char* a[] = {(char*)"header", (char*)"-offsets", (char*)"in", nullptr};
    odc::tool::HeaderTool t(3, a);
    Capture c;
    t.run();
    Text x = c.text();
    for (auto& f : fr) {
        x.wantInt(f.begin, "position of a frame"); x.want(" ", "the separation of the numbers");
        x.wantInt(f.length, "length of a frame"); x.want(" ", "the separation of the numbers");
        x.wantInt(f.rows, "number of rows of a frame"); x.want(" ", "the separation of the numbers");
        x.wantInt(f.cols, "number of columns of a frame"); x.want("\n", "the end of a line");
    }
    x.end();
    sym::reach("done");
}
// everything there is to say about a frame
SYM_CASE(header) {
    memfs::reset();
    std::vector<char> file;
    struct Fr { long begin, end, rows; bool swap, has; double min, max, miss; int32_t bits; int order; };
    std::vector<Fr> fr;
    int nf = sym::choice(1, 2);
    for (int k = 0; k < nf; k++) {
        Fr x;
        x.swap = sym::flag(); x.has = sym::flag(); x.order = k && sym::flag();
        x.min = k ? 3 : sym::any<double>(); x.max = k ? 5 : sym::any<double>(); x.miss = k ? 7 : sym::any<double>();
        x.bits = sym::any<int32_t>();
        int32_t rows = sym::any<int32_t>();
        sym::assume(rows >= 0);
        x.rows = rows;
        FFrame f(x.swap);
        f.rows = rows;
        FCol b = fcol("b@t", T_BITFIELD, "int16", 0, 255), s = fcol("s", T_STRING, "int8_string");
        b.bfNames = {"p", "q"}; b.bfSizes = {1, x.bits};
        s.strings = {"one"};
        f.cols = {fcol("i@t", T_INT, "int8", x.min, x.max, x.miss, x.has), b, s, fcol("r", T_REAL, "short_real2"), fcol("d", T_DOUBLE, "long_real"), fcol("k", T_INT, "constant", 4, 4)};
        if (x.order) std::reverse(f.cols.begin() + 1, f.cols.end());
        auto v = f.bytes();
        x.begin = (long)file.size();
        file.insert(file.end(), v.begin(), v.end());
        x.end = (long)file.size();
        fr.push_back(x);
    }
    memfs::files()["in"].reset(new std::vector<char>(file));
    char* a[] = {(char*)"header", (char*)"in", nullptr};
    odc::tool::HeaderTool t(2, a);
    Capture c;
    t.run();
    Text x = c.text();
    for (size_t k = 0; k < fr.size(); k++) {
        Fr& f = fr[k];
        x.want("\nHeader ", "the start of a header"); x.wantInt((long)k + 1, "number of a header");
        x.want(". Begin offset: ", "position of a frame"); x.wantInt(f.begin, "position of a frame");
        x.want(", end offset: ", "end of a frame"); x.wantInt(f.end, "end of a frame");
        x.want(", number of rows in block: ", "rows of a frame"); x.wantInt(f.rows, "rows of a frame");
        x.want(f.swap ? ", byteOrder: other\n" : ", byteOrder: same\n", "byte order of a frame");
        std::vector<std::string> n = {"name: i@t, type: INTEGER, codec: int8, range=<", "name: b@t, type: BITFIELD [p:", "name: s, type: STRING, codec: int8_string", "name: r, type: REAL, codec: short_real2", "name: d, type: DOUBLE, codec: long_real", "name: k, type: INTEGER, codec: constant"};
        if (f.order) std::reverse(n.begin() + 1, n.end());
        for (size_t i = 0; i < n.size(); i++) {
            x.wantInt((long)i, "number of a column");
            x.want(". ", "number of a column");
            x.want(n[i], "name, type and codec of a column");
            if (n[i][6] == 'i') {
                x.wantDouble(f.min, "range of a column"); x.want(",", "range of a column"); x.wantDouble(f.max, "range of a column");
                x.want(f.has ? ">, hasMissing=true, missingValue=" : ">, hasMissing=false", "whether a column has missing values");
                if (f.has) x.wantDouble(f.miss, "missing value of a column");
            }
            if (n[i][6] == 'b') {
                x.wantInt(1, "size of a bitfield"); x.want(";q:", "member of a bitfield"); x.wantInt(f.bits, "size of a bitfield");
                x.want("] , codec: int16", "codec of a bitfield");
            }
            x.at = x.s.find('\n', x.at);
            sym::check(x.at != std::string::npos, "the end of a line");
            x.at++;
        }
    }
    x.end();
    sym::reach("done");
}
// the definition of the table
SYM_CASE(ddl) {
    memfs::reset();
    std::vector<char> file;
    static const char* NAMES[][2] = {{"i@t", "i"}, {"i@tt", "i@tt"}, {"i", "i"}, {"i@foo", "i@foo"}, {"@t", ""}};
    int nf = sym::choice(1, 3), nm = sym::choice(0, 4);
    int layout[3];                               // the columns of each frame
    int32_t bits = sym::any<int32_t>();
    for (int k = 0; k < nf; k++) {
        FFrame f(k == 1);
        layout[k] = sym::choice(0, k ? 2 : 1);
        FCol b = fcol("b@t", T_BITFIELD, "int16", 0, 255);
        b.bfNames = {"p", "q", "r"}; b.bfSizes = {1, bits, 3};
        FCol s = fcol("s@u", T_STRING, "int8_string"); s.strings = {"one"};
        f.cols = {fcol(NAMES[nm][0], T_INT, "int8"), b, s, fcol("r@t", T_REAL, "short_real2")};
        if (layout[k] == 1) f.cols.push_back(fcol("d@t", T_DOUBLE, "long_real"));
        if (layout[k] == 2) f.cols[1].bfNames[1] = "o";
        auto v = f.bytes();
        file.insert(file.end(), v.begin(), v.end());
    }
    memfs::files()["in"].reset(new std::vector<char>(file));
    char* a[] = {(char*)"header", (char*)"-ddl", (char*)"-table", (char*)"t", (char*)"in", nullptr};
    odc::tool::HeaderTool t(5, a);
    Capture c;
    t.run();
    Text x = c.text();
    for (int k = 0; k < nf; k++) {
        if (k && layout[k] == layout[k - 1]) continue;
        x.want("CREATE TYPE b_at_t_t AS (p bit", "type of a bitfield"); x.wantInt(1, "size of a bitfield");
        x.want(layout[k] == 2 ? ", o bit" : ", q bit", "type of a bitfield"); x.wantInt(bits, "size of a bitfield");
        x.want(", r bit", "type of a bitfield"); x.wantInt(3, "size of a bitfield");
        x.want(std::string(");\nCREATE TABLE t AS (\n  ") + NAMES[nm][1] + " INTEGER,\n  b b_at_t_t,\n  s@u STRING,\n  r REAL,\n", "columns of the table");
        if (layout[k] == 1) x.want("  d DOUBLE,\n", "columns of the table");
        x.want(") ON 'in';\n", "file of the table");
    }
    x.end();
    sym::reach("done");
}
SYM_CASE(count) {
    memfs::reset();
    long total = 0;
    std::vector<std::string> names;
    int nfiles = sym::choice(1, 2);
    for (int k = 0; k < nfiles; k++) {
        std::vector<char> file;
        int nf = sym::choice(0, 2);
        for (int j = 0; j < nf; j++) {
            FFrame f(sym::flag());
            int64_t rows = sym::any<int64_t>();
            sym::assume(rows >= 0 && rows < (1ll << 40));
            f.rows = rows;
            total += rows;
            f.cols = {fcol("i", T_INT, "int8")};
            auto v = f.bytes();
            file.insert(file.end(), v.begin(), v.end());
        }
        std::string n = std::string("in") + (char)('0' + k);
        memfs::files()[n].reset(new std::vector<char>(file));
    }
    char* a[] = {(char*)"count", (char*)"in0", (char*)(nfiles == 2 ? "in1" : nullptr), nullptr};
    odc::tool::CountTool t(1 + nfiles, a);
    Capture c;
    t.run();
    Text x = c.text();
    x.wantInt(total, "number of rows");
    x.want("\n", "the end of the line");
    x.end();
    sym::reach("done");
}
