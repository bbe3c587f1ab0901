// BUILD: tools
// C19: SQL statements see every row of the data as stored, and their results are delivered unchanged
#include <sstream>
#include "memfs.h"
#include "sqlmini.h"
#include "gen.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/SelectIterator.h"
#include "odc/Writer.h"
#include "odc/core/MetaData.h"
#include "odc/csv/TextReader.h"
#include "odc/sql/TODATable.h"
#include "odc/tools/ImportTool.h"
#include "odc/tools/MergeTool.h"
#include "odc/tools/SQLTool.h"
#include <fstream>
#include <unistd.h>
using namespace hs;
static const double MDI_I = 2147483647.;

static const std::vector<std::vector<std::string>> LISTS = {{"*"}, {"s", "i"}, {"b", "d", "s"}, {"d"}, {"l", "s", "k", "i", "n"}, {"t", "i", "s"}};
static std::vector<GRow> project(const std::vector<GRow>& rows, const std::vector<std::string>& cols, const std::vector<char>& keep) {
    std::vector<GRow> w;
    for (size_t r = 0; r < rows.size(); r++) {
        if (!keep[r]) continue;
        GRow row;
        for (auto& c : cols) for (auto& kv : rows[r]) if (kv.first == c) row.push_back(kv);
        w.push_back(row);
    }
    return w;
}
// "*": the columns as the first frame has them
static std::vector<std::string> expand(const std::vector<std::string>& cols, const GRow& first) {
    if (cols[0] != "*") return cols;
    std::vector<std::string> r;
    for (auto& kv : first) r.push_back(kv.first);
    return r;
}
static void setQuery(const std::vector<std::string>& cols, std::vector<char>& keep) {
    mini::query().columns = cols;
    for (auto& k : keep) k = sym::flag();
    mini::query().where = [&keep](size_t r) { return r < keep.size() && keep[r]; };
}
template <class IT>
static void checkRow(IT& it, const GRow& w) {
    sym::check(it->columns().size() == w.size(), "number of columns selected");
    for (size_t c = 0; c < w.size(); c++) {
        const V& v = w[c].second;
        auto* col = it->columns()[c];
        sym::check(col->name() == w[c].first, "name of a selected column");
        sym::check(col->type() == v.type, "type of a selected column");
        if (v.type == T_STRING) { sym::check(it->string(c) == v.s, "selected string"); continue; }
        sym::check(it->isMissing(c) == v.missing, "selected value missing");
        sym::check(it->data(c) == (v.missing ? v.type == T_REAL || v.type == T_DOUBLE ? -2147483647. : MDI_I : v.d), "selected value");
        if (v.type == T_BITFIELD) {
            sym::check(col->bitfieldDef().first == std::vector<std::string>({"x", "y"}), "bitfield names");
            sym::check(col->bitfieldDef().second == std::vector<int>({1, 3}), "bitfield sizes");
        }
    }
}
static void checkFile(Mem& in, const std::vector<GRow>& w) {
    odc::Reader rd(in);
    auto end = rd.end();
    size_t n = 0;
    for (auto it = rd.begin(); it != end; ++it, ++n) {
        sym::check(n < w.size(), "more rows than selected");
        checkRow(it, w[n]);
    }
    sym::check(n == w.size(), "a selected row is lost");
}
static void frames(Gen& g, int n, bool constants) {
    g.constants = constants;
    for (int f = 0; f < n; f++) {
        g.wide = f == 0; g.swap = sym::flag(); g.mdi = g.swap && f ? -7 : -1; g.order = f && sym::flag(); g.missCell = f && sym::flag() ? 2 : -1;
        g.frame(f ? 1 : 2, f ? sym::choice(0, 4) : 2);
    }
}
static void sel(int n, bool constants) {
    Gen g;
    frames(g, n, constants);
    std::vector<std::string> cols = LISTS[sym::choice(0, constants ? 4 : 3)];
    std::vector<char> keep(g.rows.size());
    setQuery(cols, keep);
    std::vector<GRow> w = project(g.rows, expand(cols, g.rows[0]), keep);
    Mem in(g.file);
    odc::Select s("select", in);
    auto end = s.end();
    size_t r = 0, width = 0;
    for (auto it = s.begin(); it != end; ++it, ++r) {
        sym::check(r < w.size(), "more rows than selected");
        checkRow(it, w[r]);
        size_t ww = it->columns().size() ? 0 : 1;
        for (auto* c : it->columns()) ww = ww * 8 + c->dataSizeDoubles();
        if (ww != width) sym::check(it->isNewDataset(), "the layout of the rows changes unannounced");
        width = ww;
    }
    sym::check(r == w.size(), "a selected row is lost");
    sym::reach("done");
}
SYM_CASE(select1) { sel(1, true); }
SYM_CASE(select2) { sel(2, false); }

static void filter(int n, bool constants) {
    Gen g;
    frames(g, n, constants);
    std::vector<std::string> cols = LISTS[sym::choice(0, constants ? 4 : 3)];
    std::vector<char> keep(g.rows.size());
    setQuery(cols, keep);
    std::vector<GRow> w = project(g.rows, expand(cols, g.rows[0]), keep);
    Mem in(g.file), out;
    size_t k = odc::api::filter("select", in, out);
    sym::check(k == w.size(), "number of rows filter() reports");
    Mem res(out.d);
    if (!w.empty()) checkFile(res, w);
    else sym::check(out.d->empty(), "rows written though none was selected");
    sym::reach("done");
}
SYM_CASE(filter1) { filter(1, true); }
SYM_CASE(filter2) { filter(2, false); }

// the frame of the C++ interface, filtered: a frame again
SYM_CASE(frame_filter) {
    Gen g;
    frames(g, 2, false);
    std::vector<std::string> cols = LISTS[sym::choice(1, 3)];
    std::vector<char> keep(g.rows.size());
    bool aggregated = sym::flag();
    Mem in(g.file);
    in.openForRead();
    odc::api::Reader rd(in, aggregated);
    odc::api::Frame f = rd.next();
    if (f.rowCount() == 2) keep.resize(2);
    sym::check(f.rowCount() == keep.size(), "rows of the frame");
    setQuery(cols, keep);
    std::vector<GRow> rows = g.rows;
    rows.resize(keep.size());
    std::vector<GRow> w = project(rows, cols, keep);
    odc::api::Frame ff = f.filter("select");
    if (w.empty()) { sym::check(!ff || ff.rowCount() == 0, "rows though none was selected"); sym::reach("done"); return; }
    sym::check(ff.rowCount() == w.size(), "rows of the filtered frame");
    sym::check(ff.columnCount() == cols.size(), "columns of the filtered frame");
    Mem enc;
    auto b = ff.encodedData();
    enc.d->assign((const char*)b.data(), (const char*)b.data() + b.size());
    checkFile(enc, w);
    sym::reach("done");
}

// odc sql -i in -o out, with or without a part of the input
static void sqlTool(int n, bool part) {
    memfs::reset();
    Gen g;
    std::vector<size_t> start = {0}, rowAt = {0};
    g.constants = false;
    g.two = !part;
    for (int f = 0; f < n; f++) {
        g.wide = false; g.swap = sym::flag(); g.mdi = g.swap ? -7 : -1; g.order = f && sym::flag(); g.symbolic = f == 0;
        g.frame(f ? 1 : 2, part ? 1 : f ? sym::choice(0, 4) : 1);
        start.push_back(g.file.size());
        rowAt.push_back(g.rows.size());
    }
    memfs::files()["in"].reset(new std::vector<char>(g.file));
    std::vector<std::string> a = {"odc", "select", "x", "-i", "in", "-o", "out"};
    int from = 0, to = n;
    if (part) {
        from = sym::choice(0, n - 1);
        to = sym::choice(from, n);              // from: no -length
        if (from || sym::flag()) { a.push_back("-offset"); a.push_back(std::to_string(start[from])); }
        if (to > from) { a.push_back("-length"); a.push_back(std::to_string(start[to] - start[from])); }
        else to = n;
    }
    std::vector<GRow> rows(g.rows.begin() + rowAt[from], g.rows.begin() + rowAt[to]);
    std::vector<std::string> cols = LISTS[part ? 1 : 2 * sym::choice(0, 2) + 1];
    std::vector<char> keep(rows.size());
    setQuery(cols, keep);
    std::vector<GRow> w = project(rows, cols, keep);
    std::vector<char*> p;
    for (auto& s : a) p.push_back(&s[0]);
    bool ok = true;
    try { odc::tool::SQLTool t((int)p.size(), p.data()); t.run(); } catch (std::exception&) { ok = false; }
    memfs::exit();
    sym::check(ok, "odc sql failed");
    sym::check(mini::query().text == "select x;", "statement");
    Mem res(memfs::files()["out"]);
    if (!w.empty()) checkFile(res, w);
    else sym::check(res.d->empty(), "rows written though none was selected");
    sym::reach("done");
}
SYM_CASE(tool) { sqlTool(2, false); }
SYM_CASE(tool_part) { sqlTool(3, true); }

// odc sql -o with a template: every selected row in the file that its values name
static void toolSplit(bool strings) {
    memfs::reset();
    Gen g;
    g.constants = g.symbolic = false;
    for (int f = 0; f < 2; f++) {
        g.wide = strings && f; g.swap = f; g.mdi = f ? -7 : -1; g.order = f && sym::flag(); g.missCell = !strings && sym::flag() ? f ? 3 : 1 : -1;
        g.frame(f ? 2 : 3, f ? 3 : 1);
    }
    memfs::files()["in"].reset(new std::vector<char>(g.file));
    std::vector<std::string> cols = strings ? std::vector<std::string>{"d", "s", "b"} : std::vector<std::string>{"s", "i", "d"};
    std::vector<char> keep(g.rows.size());
    setQuery(cols, keep);
    std::map<std::string, std::vector<GRow>> want;
    std::string out = "out_" + std::to_string(getpid()) + "_";      // text output is written by the C++ library: a real file
    for (auto& row : project(g.rows, cols, keep)) {
        const V& v = row[1].second;
        want[out + (strings ? v.s : std::to_string(v.missing ? 2147483647 : (long)v.d))].push_back(row);
    }
    std::vector<std::string> a = {"odc", "select", "x", "-i", "in", "-o", out + (strings ? "{s}" : "{i}")};
    if (sym::flag()) { a.push_back("-f"); a.push_back("odb"); }
    std::vector<char*> p;
    for (auto& s : a) p.push_back(&s[0]);
    bool ok = true;
    try { odc::tool::SQLTool t((int)p.size(), p.data()); t.run(); } catch (std::exception&) { ok = false; }
    memfs::exit();
    sym::check(ok, "odc sql failed");
    sym::check(unlink(a[6].c_str()) != 0, "a file that no row names");
    memfs::files().erase("in");
    for (auto& kv : memfs::files()) sym::check(want.count(kv.first), "a file that no row names");
    for (auto& kv : want) {
        sym::check(memfs::files().count(kv.first), "the file of a row is missing");
        Mem res(memfs::files()[kv.first]);
        checkFile(res, kv.second);
    }
    sym::reach("done");
}
SYM_CASE(tool_split) { toolSplit(false); }
SYM_CASE(tool_split_strings) { toolSplit(true); }

// odc merge -S: what is selected from each file, side by side, for as many rows as all have
SYM_CASE(merge_sql) {
    memfs::reset();
    std::vector<Gen> g(2);
    size_t rows = 99;
    bool list = sym::flag();
    std::vector<std::string> a = {"odc", "-S", "-o", "out"}, all;
    for (int k = 0; k < 2; k++) {
        g[k].suffix = std::string(1, 'A' + k);
        g[k].constants = list; g[k].symbolic = k == 0; g[k].swap = k;
        g[k].wide = false;
        g[k].frame(sym::choice(1, 2), k ? 2 : 3);
        if (!list && sym::flag()) { g[k].wide = k == 0; g[k].missCell = g[k].cell; g[k].mdi = -7; g[k].frame(1, k ? 4 : sym::choice(1, 4)); }
        memfs::files()["in" + g[k].suffix].reset(new std::vector<char>(g[k].file));
        rows = std::min(rows, g[k].rows.size());
        a.push_back("in" + g[k].suffix);
        // the second statement is in a file
        if (k) { memfs::files()["second.sql"].reset(new std::vector<char>{'s', 'e', 'l', 'e', 'c', 't'}); a.push_back("second.sql"); }
        else a.push_back("select x");
    }
    mini::query() = mini::Query();
    mini::query().columns = {"*"};
    std::vector<GRow> w;
    for (size_t r = 0; r < rows; r++) { w.push_back(g[0].rows[r]); w[r].insert(w[r].end(), g[1].rows[r].begin(), g[1].rows[r].end()); }
    std::vector<char*> p;
    for (auto& s : a) p.push_back(&s[0]);
    bool ok = true;
    try { odc::tool::MergeTool t((int)p.size(), p.data()); t.run(); } catch (std::exception&) { ok = false; }
    memfs::exit();
    sym::check(ok, "odc merge -S failed");
    sym::check(mini::query().text == "select", "another statement was executed");
    Mem res(memfs::files()["out"]);
    checkFile(res, w);
    sym::reach("done");
}

// frames without rows, anywhere, or nothing else
SYM_CASE(empties) {
    memfs::reset();
    Gen g;
    g.constants = g.wide = g.symbolic = false;
    int nf = sym::choice(1, 3);
    for (int f = 0; f < nf; f++) { g.swap = f == 1; g.frame(sym::choice(0, 2), 2); }
    std::vector<std::string> cols = LISTS[sym::choice(1, 2)];
    std::vector<char> keep(g.rows.size());
    setQuery(cols, keep);
    std::vector<GRow> w = project(g.rows, cols, keep);
    int how = sym::choice(0, 2);
    bool ok = true;
    try {
        if (how == 0) {
            Mem in(g.file), out;
            in.openForRead();
            size_t n = odc::api::filter("select", in, out);
            sym::check(n == w.size(), "number of rows selected");
            if (!w.empty()) checkFile(out, w);
        }
        if (how == 1) {
            Mem in(g.file);
            odc::Select s("select", in);
            auto end = s.end();
            size_t r = 0;
            for (auto it = s.begin(); it != end; ++it, ++r) {
                sym::check(r < w.size(), "more rows than selected");
                checkRow(it, w[r]);
            }
            sym::check(r == w.size(), "a selected row is lost");
        }
        if (how == 2) {
            memfs::files()["in"].reset(new std::vector<char>(g.file));
            const char* a[] = {"odc", "select x", "-i", "in", "-o", "out", "-f", "odb"};
            odc::tool::SQLTool t(8, const_cast<char**>(a));
            t.run();
            memfs::exit();
            Mem res(memfs::files()["out"]);
            checkFile(res, w);
        }
    } catch (std::exception&) { ok = false; }
    sym::check(ok, "a statement fails on frames without rows");
    sym::reach("done");
}

// the statement is the argument, or what the file of that name holds
SYM_CASE(script) {
    memfs::reset();
    static const char* STATEMENT[] = {"select i", "SELECT i", "  Select i", "select\ti", "set $x = 1; select i", "select"};
    static const char* FILES[] = {"q.sql", "select.sql", "selections/q", "my_select", "selected", "dir/select/q.sql", "preselect.txt", "s"};
    Gen g;
    g.constants = false; g.wide = false;
    g.frame(2, 1);
    memfs::files()["in"].reset(new std::vector<char>(g.file));
    std::vector<std::string> a = {"odc"};
    std::string want;
    if (sym::flag()) {
        std::string st = STATEMENT[sym::choice(0, 5)];
        a.push_back(st);
        want = st;
        if (sym::flag()) { a.push_back("where b"); want += " where b"; }
    }
    else {
        std::string f = FILES[sym::choice(0, 7)];
        static const int PAD[] = {0, 1, 1013, 1014, 1015, 1016, 2040, 3000};
        std::string t = "select i\n" + std::string(PAD[sym::choice(0, 7)], ' ') + "-- end";
        memfs::files()[f].reset(new std::vector<char>(t.begin(), t.end()));
        a.push_back(f);
        want = t;
    }
    want += ";";
    for (const char* x : {"-i", "in", "-o", "out"}) a.push_back(x);
    std::vector<std::string> cols = {"i"};
    std::vector<char> keep(g.rows.size(), 1);
    mini::query() = mini::Query();
    mini::query().columns = cols;
    std::vector<GRow> w = project(g.rows, cols, keep);
    std::vector<char*> p;
    for (auto& s : a) p.push_back(&s[0]);
    bool ok = true;
    try { odc::tool::SQLTool t((int)p.size(), p.data()); t.run(); } catch (std::exception&) { ok = false; }
    memfs::exit();
    sym::check(ok, "odc sql failed");
    sym::check(mini::query().text == want, "another statement was executed");
    Mem res(memfs::files()["out"]);
    checkFile(res, w);
    sym::reach("done");
}

// two tables: every combination of their rows, the inner one read again and again
SYM_CASE(join) {
    Gen o, g;
    o.suffix = "2"; o.constants = g.constants = false;
    o.wide = false;
    o.symbolic = false;
    o.swap = sym::flag();
    o.frame(sym::choice(1, 2), 1);
    if (sym::flag()) { o.order = sym::flag(); o.frame(1, sym::choice(0, 3)); }
    g.wide = false;
    g.frame(sym::choice(1, 2), 1);
    if (sym::flag()) { g.swap = sym::flag(); g.mdi = g.swap ? -7 : -1; g.missCell = (int)g.rows.size(); g.order = sym::flag(); g.frame(1, sym::choice(0, 3)); }
    std::vector<std::string> cols = sym::flag() ? std::vector<std::string>{"i2", "s", "i"} : std::vector<std::string>{"d", "s2", "b2", "s"};
    mini::query().columns = cols;
    mini::query().where = nullptr;
    std::vector<GRow> all;
    for (auto& a : o.rows) for (auto& b : g.rows) { GRow r = a; r.insert(r.end(), b.begin(), b.end()); all.push_back(r); }
    std::vector<GRow> w = project(all, cols, std::vector<char>(all.size(), 1));
    Mem ino(o.file), in(g.file);
    odc::Select s("select");
    s.database().addImplicitTable(new odc::sql::ODATable(s.database(), ino));
    s.database().addImplicitTable(new odc::sql::ODATable(s.database(), in));
    auto end = s.end();
    size_t r = 0;
    for (auto it = s.begin(); it != end; ++it, ++r) {
        sym::check(r < w.size(), "more rows than selected");
        checkRow(it, w[r]);
    }
    sym::check(r == w.size(), "a selected row is lost");
    sym::reach("done");
}

// several statements over the same tables, the first one run to its end or not
SYM_CASE(again) {
    Gen g;
    g.constants = g.wide = false;
    g.frame(2, 2);
    g.swap = sym::flag(); g.order = sym::flag(); g.missCell = sym::flag() ? 2 : -1; g.mdi = g.missCell < 0 ? -1 : -7;
    g.frame(1, sym::choice(0, 4));
    std::vector<char> keep(g.rows.size(), 1);
    Mem in(g.file);
    odc::Select s("");
    in.openForRead();
    s.database().addImplicitTable(new odc::sql::ODATable(s.database(), in));
    for (int q = 0; q < 2; q++) {
        std::vector<std::string> cols = LISTS[sym::choice(0, 2)];
        mini::query().columns = cols;
        mini::query().where = nullptr;
        std::vector<GRow> w = project(g.rows, expand(cols, g.rows[0]), keep);
        size_t stop = q == 0 ? sym::choice(0, (int)w.size() + 1) : w.size() + 1;
        {
            std::unique_ptr<odc::SelectIterator> it(s.createSelectIterator("select"));
            odc::SelectIterator* p = it.get();
            size_t r = 0;
            for (; r < stop && it->next(); r++) {
                sym::check(r < w.size(), "more rows than selected");
                for (size_t c = 0; c < w[r].size(); c++) {
                    const V& v = w[r][c].second;
                    const double* d = p->data() + p->dataOffset(c);
                    if (v.type == T_STRING) sym::check(std::string((const char*)d, strnlen((const char*)d, 8 * p->columns()[c]->dataSizeDoubles())) == v.s, "selected string");
                    else sym::check(*d == (v.missing ? MDI_I : v.d), "selected value");
                }
            }
            if (stop > w.size()) sym::check(r == w.size(), "a selected row is lost");
        }
    }
    sym::reach("done");
}

// a CSV table, whose strings become longer on the way, or which lacks values of any column
static void csv(bool null) {
    static const int LEN[] = {3, 8, 9, 17};
    std::string t = "i:INTEGER,s:STRING,d:DOUBLE,b:BITFIELD[x:1;y:3]\n";
    std::vector<GRow> rows;
    for (int r = 0; r < 3; r++) {
        GRow row;
        V i, s, d, b;
        s.type = T_STRING; d.type = T_DOUBLE; b.type = T_BITFIELD;
        i.missing = sym::choice(0, 1); i.d = r;
        t += i.missing ? "NULL" : std::to_string(r);
        t += ",";
        int n = null ? 2 : LEN[sym::choice(0, 3)];
        for (int k = 0; k < n; k++) {
            char c = !null && k == n / 2 ? (char)sym::any<uint8_t>() : 'x';
            sym::assume((c != '\n') & (c != ',') & (c != 0) & (c != ' ') & (c != '\t') & (c != '\'') & (c != '"'));
            t.push_back(c); s.s.push_back(c);
        }
        d.missing = null && sym::flag(); b.missing = null && sym::flag();
        t += d.missing ? ",NULL" : ",1.5";
        t += b.missing ? ",null\n" : "," + std::to_string(r + 2) + "\n";
        d.d = 1.5; b.d = r + 2;
        rows.push_back({{"i", i}, {"s", s}, {"d", d}, {"b", b}});
    }
    std::vector<std::string> cols = sym::flag() ? std::vector<std::string>{"d", "s", "i"} : std::vector<std::string>{"b", "s", "d"};
    std::vector<char> keep(rows.size());
    setQuery(cols, keep);
    std::vector<GRow> w = project(rows, cols, keep);
    std::istringstream is(t);
    odc::Select s("select");
    s.database().addImplicitTable(new odc::sql::ODBCSVTable(s.database(), is, "t", ","));
    auto end = s.end();
    size_t r = 0;
    for (auto it = s.begin(); it != end; ++it, ++r) {
        sym::check(r < w.size(), "more rows than selected");
        checkRow(it, w[r]);
    }
    sym::check(r == w.size(), "a selected row is lost");
    sym::reach("done");
}
SYM_CASE(csv) { csv(false); }
SYM_CASE(csv_null) { csv(true); }

// odc import -sql: the rows selected from a text file, whatever separates its fields
SYM_CASE(import_sql) {
    memfs::reset();
    static const char* OPT[] = {nullptr, ";", "tab", "SPACE", "z"};
    static const char* DEL[] = {",", ";", "\t", " ", "z"};
    int k = sym::choice(0, 4);
    std::string d = DEL[k], t = "i:INTEGER" + d + "s:STRING" + d + "d:DOUBLE\n";
    static const char* W[] = {"x", "exactly8", "morethan8", "more_than_16_bytes"};
    std::vector<GRow> rows;
    for (int r = 0; r < 3; r++) {
        int w = r == 2 ? 2 : sym::choice(0, 3), n = r == 1 && sym::flag();
        t += (n ? "NULL" : std::to_string(r - 5)) + d + W[w] + d + "2.5\n";
        V i, s, x;
        i.d = n ? MDI_I : r - 5; i.missing = n; s.type = T_STRING; s.s = W[w]; x.type = T_DOUBLE; x.d = 2.5;
        rows.push_back({{"i", i}, {"s", s}, {"d", x}});
    }
    std::vector<std::string> cols = sym::flag() ? std::vector<std::string>{"s", "i"} : std::vector<std::string>{"i", "s", "d"};
    std::vector<char> keep(rows.size());
    setQuery(cols, keep);
    std::vector<GRow> want = project(rows, cols, keep);
    // text files are read by the C++ library: a real file, of this process
    std::string path = "/tmp/c19_import_" + std::to_string(getpid());
    { std::ofstream o(path); o << t; }
    std::vector<std::string> a = {"odc"};
    if (OPT[k]) { a.push_back("-d"); a.push_back(OPT[k]); }
    for (const char* x : {"-sql", "select s", "", "out"}) a.push_back(*x ? x : path.c_str());
    std::vector<char*> p;
    for (auto& s : a) p.push_back(&s[0]);
    bool ok = true;
    try { odc::tool::ImportTool t((int)p.size(), p.data()); t.run(); } catch (std::exception&) { ok = false; }
    unlink(path.c_str());
    memfs::exit();
    sym::check(ok, "odc import -sql failed");
    sym::check(mini::query().text == "select s", "statement");
    Mem res(memfs::files()["out"]);
    if (!want.empty()) checkFile(res, want);
    else sym::check(res.d->empty(), "rows written though none was selected");
    sym::reach("done");
}

// columns by name, in each frame: the full name first, the unqualified name if it is unique
SYM_CASE(names) {
    static const char* SETS[][3] = {{"a", "a@t", "b@t"}, {"a@t", "a", "ab@t"}, {"a@t", "a@u", "b@u"}, {"b@t", "c", "a@t"}, {"b", "c", "d"}};
    int nf = sym::choice(1, 2);
    std::vector<char> file;
    static const char* Q[] = {"a", "a@t", "a@u", "b", "ab"};
    std::string q = Q[sym::choice(0, 4)];
    std::vector<double> want;
    bool bad = false, first = true, refusedFirst = false;
    std::string bound;       // the name the query is bound to by the first frame
    for (int f = 0; f < nf; f++) {
        const char** N = SETS[sym::choice(0, 4)];
        FFrame fr(sym::flag());
        fr.rows = 1;
        for (int c = 0; c < 3; c++) fr.cols.push_back(fcol(N[c], T_INT, "int8", 0, 255, 2147483647));
        fr.data.marker(0);
        uint8_t v[3];
        for (int c = 0; c < 3; c++) { v[c] = sym::any<uint8_t>(); fr.data.u8(v[c]); }
        std::vector<char> b = fr.bytes();
        file.insert(file.end(), b.begin(), b.end());
        const std::string& name = first ? q : bound;
        int exact = -1, other = -1, n = 0;
        for (int c = 0; c < 3; c++) {
            std::string s = N[c];
            if (s == name) exact = c;
            else if (s.compare(0, name.size() + 1, name + "@") == 0) { other = c; n++; }
        }
        int k = exact >= 0 ? exact : n == 1 ? other : -1;
        if (k < 0) { if (!bad) refusedFirst = first; bad = true; }
        else if (!bad) want.push_back(v[k]);
        if (first && k >= 0) bound = N[k];
        first = false;
    }
    mini::query().columns = {q};
    mini::query().where = nullptr;
    Mem in(file);
    std::vector<double> got;
    bool thrown = false;
    try {
        odc::Select s("select", in);
        auto end = s.end();
        for (auto it = s.begin(); it != end; ++it) got.push_back(it->data(0));
    } catch (std::exception&) { thrown = true; }
    (void)refusedFirst;
    sym::check(thrown == bad, bad ? "a column that is not there, or ambiguous, is not refused" : "a column that is there is refused");
    if (!bad) {
        sym::check(got.size() == want.size(), "rows");
        for (size_t i = 0; i < want.size() && i < got.size(); i++) sym::check(got[i] == want[i], "value of another column");
    }
    sym::reach("done");
}
