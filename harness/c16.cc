// BUILD: tools
// C16: splitting by column values puts every row, unaltered and in order, in the file its values name
#include "memfs.h"
#include "sqlmini.h"
#include "enc.h"
#include "odc/DispatchingWriter.h"
#include "odc/Reader.h"
#include "odc/Writer.h"
#include "odc/tools/SplitTool.h"
#include "odc/core/MetaData.h"
#include "odc/sql/TODATable.h"
using namespace hs;
namespace oa = odc::api;

static int W = 2;                             // words of the string column
struct Row { char s[32]; double i, r, n, d; int layout; };
// layouts: 0 s i r n d; 1 n i s d r (reordered); 2 i s n d (one column less); 3 as 0, 2.5 marks a missing r
static std::vector<std::string> columnsOf(int layout) {
    switch (layout) {
        case 1: return {"n@t", "i@t", "s@t", "d@t", "r@t"};
        case 2: return {"i@t", "s@t", "n@t", "d@t"};
        default: return {"s@t", "i@t", "r@t", "n@t", "d@t"};
    }
}
static void frame(Mem& m, int layout, const std::vector<Row>& rows) {
    odc::Writer<> w(m, false);
    auto it = w.begin(false);
    auto cs = columnsOf(layout);
    it->setNumberOfColumns(cs.size());
    for (size_t c = 0; c < cs.size(); c++) {
        char k = cs[c][0];
        it->setColumn(c, cs[c], k == 's' ? oa::STRING : k == 'r' ? oa::REAL : k == 'd' ? oa::DOUBLE : oa::INTEGER);
        if (k == 's') it->columns()[c]->dataSizeDoubles(W);
    }
    if (layout == 3) it->missingValue(2, 2.5);
    (**it).rowsBufferSize(10);
    it->writeHeader();
    for (auto& v : rows) {
        for (size_t c = 0; c < cs.size(); c++) switch (cs[c][0]) {
            case 's': memcpy(&(*it)[c], v.s, 8 * W); break;
            case 'i': (*it)[c] = v.i; break;
            case 'r': (*it)[c] = v.r; break;
            case 'n': (*it)[c] = v.n; break;
            case 'd': (*it)[c] = v.d; break;
        }
        ++it;
    }
}
static const char* STR[] = {"a", "some long value", "some long other", "x/yz", "x/wz", "x/y/z", ""};
static const char* LONG[] = {"sixteen letters in front", "sixteen letters in frame", "sixteen.letters.", ""};
static Row make(int r) {
    Row w; memset(&w, 0, sizeof w);
    strcpy(w.s, "first string");
    w.i = 7; w.r = 2.5; w.n = 1; w.d = 100 + r;
    return w;
}
// the name the documentation promises: each {column} replaced by the row's value
static std::string nameOf(const std::string& t, const Row& w) {
    std::string o;
    for (size_t k = 0; k < t.size(); k++) {
        if (t[k] != '{') { o += t[k]; continue; }
        char c = t[k + 1];
        if (c == 's') { for (const char* p = w.s; *p; p++) if (*p == '/') o += "__SLASH__"; else o += *p; }
        else o += std::to_string((int)(c == 'i' ? w.i : c == 'n' ? w.n : w.r));
        k = t.find('}', k);
    }
    return o;
}
static void expectFile(const std::string& name, std::vector<Row> rows) {
    auto f = memfs::files().find(name);
    sym::check(f != memfs::files().end(), "a file named by a row's values is missing");
    Mem in(*f->second);
    odc::Reader rd(in);
    size_t n = 0;
    auto end = rd.end();
    for (auto it = rd.begin(); it != end; ++it, ++n) {
        sym::check(n < rows.size(), "a file has rows that do not belong to it");
        Row& w = rows[n];
        auto cs = columnsOf(w.layout);
        sym::check(it->columns().size() == cs.size(), "columns of a split file");
        for (size_t c = 0; c < cs.size(); c++) {
            sym::check(it->columns()[c]->name() == cs[c], "column names of a split file");
            if (cs[c][0] == 's') { sym::check(it->string(c) == w.s, "a string was altered or put in the wrong file"); continue; }
            double want = cs[c][0] == 'i' ? w.i : cs[c][0] == 'r' ? w.r : cs[c][0] == 'n' ? w.n : w.d;
            sym::check(sameNum(it->data(c), want), "a number was altered or put in the wrong file");
            if (cs[c][0] == 'r') sym::check(it->isMissing(c) == (w.r == (w.layout == 3 ? 2.5 : -2147483647.)), "a missing value became a value or a value missing");
        }
    }
    sym::check(n == rows.size(), "a split file lacks rows");
}
static void expectAll(const std::string& t, const std::vector<Row>& rows, const std::map<std::string, std::vector<Row>>& before = {}) {
    std::map<std::string, std::vector<Row>> want = before;
    for (auto& w : rows) want[nameOf(t, w)].push_back(w);
    for (auto& kv : want) expectFile(kv.first, kv.second);
    sym::check(memfs::files().size() == want.size(), "files were created that no row names");
}
static void split(Mem& m, const std::string& t, int maxOpen, bool append = false, bool closeIt = true) {
    {
        Mem in(m.d);
        odc::Reader rd(in);
        odc::DispatchingWriter out(t, maxOpen, append);
        auto o = out.begin();
        o->pass1(rd.begin(), rd.end());
        if (closeIt) o->close();
    }
    memfs::exit();
}
static void vary(Row& w, char key, int k) {
    switch (key) {
        case 's': memset(w.s, 0, sizeof w.s); strcpy(w.s, W > 2 ? LONG[k] : STR[k]); break;
        case 'i': w.i = k * 10; break;
        case 'n': w.n = -k; break;
        case 'r': { static const double v[] = {1.25, 1.75, -2.5, 0}; w.r = v[k]; break; }
    }
}
static void run(const std::string& t, int nrows, const std::string& keys, int values, int maxOpenMax) {
    memfs::reset(true);
    std::vector<Row> rows;
    for (int r = 0; r < nrows; r++) {
        Row w = make(r);
        for (char k : keys) vary(w, k, sym::choice(0, values - 1));
        rows.push_back(w);
    }
    rows[0].d = sym::any<double>();
    Mem m;
    frame(m, 0, rows);
    split(m, t, sym::choice(1, maxOpenMax), false, sym::flag());
    expectAll(t, rows);
    sym::reach("done");
}
SYM_CASE(ints) { run("o.{i}.odb", 4, "i", 3, 3); }
// files that are closed and opened again and again
SYM_CASE(reopen) { run("o.{i}.odb", 6, "i", 2, 1); }
SYM_CASE(strings) { run("o.{s@t}.odb", 3, "s", 6, 2); }
SYM_CASE(long_strings) { W = sym::choice(3, 4); LONG[3] = W == 4 ? "letters until the thirty-first" : "letters until"; run("o.{s@t}.odb", 3, "s", 4, 2); }
SYM_CASE(reals) { run("{r}", 3, "r", 4, 2); }
SYM_CASE(pairs) { run("{n@t}x{i}.{i}", 4, "in", 2, 3); }
SYM_CASE(nan) {
    // keys that are not numbers
    memfs::reset(true);
    std::vector<Row> rows;
    for (int r = 0; r < 3; r++) {
        Row w = make(r);
        int k = sym::choice(0, 2);
        w.r = k == 0 ? std::nan("") : k == 1 ? 1 : -2147483647.;
        rows.push_back(w);
    }
    Mem m;
    frame(m, 0, rows);
    split(m, "o{r}", sym::choice(1, 3));
    std::map<std::string, std::vector<Row>> want;
    for (auto& w : rows) want[w.r != w.r ? "o-2147483648" : nameOf("o{r}", w)].push_back(w);
    for (auto& kv : want) expectFile(kv.first, kv.second);
    sym::check(memfs::files().size() == want.size(), "files were created that no row names");
    sym::reach("done");
}
// files that exist already are overwritten, or appended to if asked, however often they are reopened
SYM_CASE(existing) {
    memfs::reset(true);
    std::string t = "o.{i}.odb";
    std::vector<Row> rows, old;
    old.push_back(make(9)); old[0].i = 0; old.push_back(old[0]); old[1].i = 10;
    bool append = sym::flag();
    std::map<std::string, std::vector<Row>> before;
    for (auto& w : old) {
        if (!sym::flag()) continue;
        Mem f; frame(f, 0, {w});
        memfs::files()[nameOf(t, w)] = f.d;
        if (append) before[nameOf(t, w)].push_back(w);
        else before[nameOf(t, w)].clear();
    }
    for (int r = 0; r < 4; r++) { Row w = make(r); vary(w, 'i', sym::choice(0, 2)); rows.push_back(w); }
    std::map<std::string, std::vector<Row>> want;
    for (auto& w : rows) want[nameOf(t, w)].push_back(w);
    for (auto& kv : before) if (!want.count(kv.first)) { if (!append) { memfs::files().erase(kv.first); } }
    std::map<std::string, std::vector<Row>> b2;
    for (auto& kv : before) if (append || want.count(kv.first)) b2[kv.first] = kv.second;
    Mem m;
    frame(m, 0, rows);
    split(m, t, sym::choice(1, 3), append);
    expectAll(t, rows, b2);
    sym::reach("done");
}
// the columns change on the way: in one input, or between two inputs given to the same writer
static void changing(bool twice) {
    memfs::reset(true);
    std::string t = sym::flag() ? "{s}.{i}" : "{n}";
    std::vector<Row> rows;
    Mem m[2];
    for (int f = 0; f < 2; f++) {
        int layout = sym::choice(0, 3);
        std::vector<Row> rs;
        int n = sym::choice(1, 2);
        for (int r = 0; r < n; r++) {
            Row w = make(2 * f + r);
            w.layout = layout;
            vary(w, 's', sym::choice(1, 2)); vary(w, 'n', sym::choice(0, 1));
            rs.push_back(w); rows.push_back(w);
        }
        frame(m[f], layout, rs);
    }
    if (!twice) { m[0].d->insert(m[0].d->end(), m[1].d->begin(), m[1].d->end()); split(m[0], t, sym::choice(1, 2)); }
    else {
        {
            odc::DispatchingWriter out(t, sym::choice(1, 2));
            auto o = out.begin();
            for (auto& f : m) { Mem in(f.d); odc::Reader rd(in); o->pass1(rd.begin(), rd.end()); }
        }
        memfs::exit();
    }
    expectAll(t, rows);
    sym::reach("done");
}
SYM_CASE(change) { changing(false); }
SYM_CASE(twice) { changing(true); }
// rows given one by one; the string column grows on the way
SYM_CASE(direct) {
    memfs::reset(true);
    std::string t = sym::flag() ? "{i}" : "{s}";
    std::vector<Row> rows;
    int grow = sym::choice(0, 3);                 // from which row on the string column is 16 bytes wide (0: from the start)
    {
        odc::DispatchingWriter out(t, sym::choice(1, 2));
        auto o = out.begin();
        auto cs = columnsOf(0);
        o->setNumberOfColumns(cs.size());
        for (size_t c = 0; c < cs.size(); c++) o->setColumn(c, cs[c], cs[c][0] == 's' ? oa::STRING : cs[c][0] == 'r' ? oa::REAL : cs[c][0] == 'd' ? oa::DOUBLE : oa::INTEGER);
        o->columns()[0]->dataSizeDoubles(grow ? 1 : 2);
        o->writeHeader();
        for (int r = 0; r < 3; r++) {
            bool wide = r >= grow;
            if (r && r == grow) o->flushAndResetColumnSizes({{"s@t", 2}});
            Row w = make(r);
            memset(w.s, 0, 16);
            int k = sym::choice(0, 1);
            strcpy(w.s, wide ? (k ? "a longer string" : "abcd") : (k ? "efgh" : "abcd"));
            vary(w, 'i', sym::choice(0, 1));
            memcpy(&(*o)[0], w.s, wide ? 16 : 8);
            (*o)[1] = w.i;
            // the others keep their missing values / the values of the row before
            if (r == 0) { (*o)[2] = w.r; (*o)[3] = w.n; }
            (*o)[4] = w.d;
            if (r == grow && r) { (*o)[2] = w.r; (*o)[3] = w.n; }
            rows.push_back(w);
            ++o;
        }
    }
    memfs::exit();
    expectAll(t, rows);
    sym::reach("done");
}
// the first row written as it stands
SYM_CASE(initial) {
    memfs::reset(true);
    Row w; memset(&w, 0, sizeof w);
    w.i = 2147483647.; w.n = 2147483647.; w.r = w.d = -2147483647.;
    {
        odc::DispatchingWriter out("{i}", 1);
        auto o = out.begin();
        auto cs = columnsOf(0);
        o->setNumberOfColumns(cs.size());
        for (size_t c = 0; c < cs.size(); c++) o->setColumn(c, cs[c], cs[c][0] == 's' ? oa::STRING : cs[c][0] == 'r' ? oa::REAL : cs[c][0] == 'd' ? oa::DOUBLE : oa::INTEGER);
        o->columns()[0]->dataSizeDoubles(2);
        o->writeHeader();
        if (sym::flag()) { w.d = sym::any<double>(); (*o)[4] = w.d; }
        ++o;
    }
    memfs::exit();
    expectAll("{i}", {w});
    sym::reach("done");
}

// odc split: the tool itself, with and without verification
SYM_CASE(tool) {
    memfs::reset(true);
    std::vector<Row> rows;
    for (int r = 0; r < 3; r++) { Row w = make(r); vary(w, 'i', sym::choice(0, 2)); vary(w, 's', sym::choice(0, 1)); rows.push_back(w); }
    bool verify = sym::flag();
    if (!verify) rows[1].d = sym::any<double>();
    Mem m;
    frame(m, 0, rows);
    memfs::files()["in.odb"] = m.d;
    std::string t = "{s}-{i}.odb";
    odc::tool::SplitTool::split("in.odb", t, sym::choice(1, 2), verify);
    memfs::exit();
    memfs::files().erase("in.odb");
    expectAll(t, rows);
    sym::reach("done");
}
// odc split -sort: by way of a statement that sorts.  The stand-in for the SQL engine leaves the rows in their order, in
// which those of one output file have to stay however they are sorted
SYM_CASE(sorted) {
    memfs::reset(true);
    mini::query() = mini::Query();
    mini::query().columns = {"*"};
    std::vector<Row> rows;
    Mem m;
    int nf = sym::choice(1, 2);
    for (int f = 0; f < nf; f++) {
        std::vector<Row> rs;
        for (int r = 0; r < 2; r++) { Row w = make(2 * f + r); vary(w, 'i', sym::choice(0, 2)); vary(w, 's', sym::choice(0, 1)); rs.push_back(w); }
        frame(m, 0, rs);
        rows.insert(rows.end(), rs.begin(), rs.end());
    }
    memfs::files()["in.odb"] = m.d;
    std::string t = "{s}-{i}.odb";
    if (sym::flag()) odc::tool::SplitTool::presortAndSplit("in.odb", t);
    else { char* a[] = {(char*)"split", (char*)"-sort", (char*)"in.odb", (char*)"{s}-{i}.odb", nullptr}; odc::tool::SplitTool x(4, a); x.run(); }
    memfs::exit();
    memfs::files().erase("in.odb");
    expectAll(t, rows);
    sym::reach("done");
}
// the chunks of a file to be sorted cover all of it
SYM_CASE(chunks) {
    memfs::reset(true);
    Mem m;
    int nf = sym::choice(1, 4);
    std::vector<size_t> at;
    std::vector<int> rowsOf;
    for (int f = 0; f < nf; f++) {
        int n = sym::choice(1, 2);
        at.push_back(m.d->size());
        std::vector<Row> rows;
        for (int r = 0; r < n; r++) { Row w = make(r); rows.push_back(w); }
        Mem one; frame(one, 0, rows);
        m.d->insert(m.d->end(), one.d->begin(), one.d->end());
        rowsOf.push_back(n);
    }
    at.push_back(m.d->size());
    memfs::files()["in.odb"] = m.d;
    size_t limit = sym::any<uint16_t>();
    auto cs = odc::tool::SplitTool::getChunks("in.odb", limit);
    size_t pos = 0;
    for (auto& c : cs) {
        sym::check((long long)c.first == (long long)pos, "chunks do not follow each other");
        sym::check((long long)c.second > 0, "empty chunk");
        size_t first = 0; while (at[first] != pos) first++;
        pos += (long long)c.second;
        size_t last = first; while (last < at.size() && at[last] != pos) last++;
        sym::check(last < at.size(), "a chunk ends inside a frame");
        size_t size = 0;
        for (size_t k = first; k < last; k++) size += rowsOf[k] * 5 * sizeof(double);
        sym::check(last == first + 1 || size <= limit, "a chunk is larger than asked for");
    }
    sym::check(pos == m.d->size(), "chunks leave out a part of the file");
    sym::reach("done");
}
