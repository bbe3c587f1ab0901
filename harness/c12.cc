// C12: an aggregated frame is the concatenation of the compatible stored frames it covers
#include "enc.h"
#include "odbfile.h"
using namespace hs;
using namespace odc::api;

// layouts of a stored frame; 0 and 1 are compatible with each other
enum { SAME, REORDERED, OTHERTYPE, EXTRA, WIDER, OTHERNAME, NKIND };
struct Row { double a, b; std::string s; };
struct Stored { int kind; std::vector<Row> rows; size_t from, to; std::map<std::string, std::string> props; };

static void put(std::vector<char>& file, Stored& st, int i, int nrows, bool swap) {
    FFrame f(swap);
    f.rows = nrows;
    FCol s = fcol("s@t", T_STRING, i & 1 ? "int16_string" : "int8_string");
    s.strings = {"one", "two two two", st.kind == WIDER ? "0123456789abcdefg" : "3"};
    FCol a = fcol("a@t", T_INT, "int8", i, i + 255), b = fcol(st.kind == OTHERNAME ? "bb@t" : "b@t", st.kind == OTHERTYPE ? T_INT : T_DOUBLE, st.kind == OTHERTYPE ? "int32" : "long_real");
    std::vector<int> order = st.kind == REORDERED ? std::vector<int>{2, 0, 1} : std::vector<int>{0, 1, 2};
    FCol cs[3] = {a, b, s};
    for (int c : order) f.cols.push_back(cs[c]);
    if (st.kind == EXTRA) f.cols.push_back(fcol("extra@t", T_INT, "constant", 5, 5));
    f.props = st.props;
    Row prev;
    for (int r = 0; r < nrows; r++) {
        Row row;
        bool partial = r > 0;                               // later rows keep the first stored column
        f.data.marker(partial ? 1 : 0);
        for (int k = 0; k < 3; k++) {
            int c = order[k];
            if (partial && k == 0) { if (c == 0) row.a = prev.a; else row.s = prev.s; continue; }
            if (c == 0) { uint8_t v = sym::any<uint8_t>(); f.data.u8(v); row.a = i + v; }
            if (c == 1) { int32_t v = 10 * i + r; if (st.kind == OTHERTYPE) f.data.i32(v); else f.data.f64(v); row.b = v; }
            if (c == 2) { unsigned v = (i + r) % 3; if (i & 1) f.data.u16(v); else f.data.u8(v); row.s = s.strings[v]; }
        }
        st.rows.push_back(row); prev = row;
    }
    std::vector<char> b2 = f.bytes();
    st.from = file.size();
    append(file, b2);
    st.to = file.size();
}
static bool compatible(int a, int b) { return a == b || (a <= REORDERED && b <= REORDERED); }

// nf stored frames with the given kinds and rows; `limit` is the reader's row limit (-1: none)
static void run(int nf, int maxKind, int maxRows, bool limited, size_t nthreads, unsigned ops) {
    std::vector<char> file;
    std::vector<Stored> st(nf);
    bool swap = sym::flag();
    for (int i = 0; i < nf; i++) {
        st[i].kind = sym::choice(0, maxKind);
        st[i].props["k" + std::to_string(i)] = "v" + std::to_string(i);
        st[i].props["common"] = std::to_string(i);
        put(file, st[i], i, sym::choice(maxRows == 1 ? 1 : 0, maxRows), swap != (i == 1));
    }
    long limit = limited ? sym::choice(0, 5) : -1;
    if (limited) for (auto& s : st) sym::assume((long)s.rows.size() <= limit);
    // model of the grouping
    std::vector<std::pair<int, int>> groups;                // [first, last]
    for (int i = 0; i < nf;) {
        int j = i; long rows = (long)st[i].rows.size();
        while (j + 1 < nf && compatible(st[i].kind, st[j + 1].kind) && (limit < 0 || rows + (long)st[j + 1].rows.size() <= limit)) { j++; rows += (long)st[j].rows.size(); }
        groups.push_back({i, j});
        i = j + 1;
    }
    Mem in(file);
    in.openForRead();
    Reader rd(in, true, limit);
    for (auto& g : groups) {
        Frame f = rd.next();
        sym::check(!!f, "an aggregated frame is missing");
        size_t rows = 0;
        for (int i = g.first; i <= g.second; i++) rows += st[i].rows.size();
        sym::check(f.rowCount() == rows, "row count of an aggregated frame");
        sym::check((long long)f.offset() == (long long)st[g.first].from && (long long)f.length() == (long long)(st[g.second].to - st[g.first].from), "position of an aggregated frame");
        const Stored& s0 = st[g.first];
        std::vector<std::string> nm = s0.kind == REORDERED ? std::vector<std::string>{"s@t", "a@t", "b@t"} : std::vector<std::string>{"a@t", s0.kind == OTHERNAME ? "bb@t" : "b@t", "s@t"};
        if (s0.kind == EXTRA) nm.push_back("extra@t");
        sym::check(f.columnCount() == nm.size(), "column count of an aggregated frame");
        for (size_t c = 0; c < nm.size(); c++) sym::check(f.columnInfo()[c].name == nm[c] && f.hasColumn(nm[c]), "columns of an aggregated frame");
        if (ops & 1) {
            std::string bn = s0.kind == OTHERNAME ? "bb" : "b";
            Dec d(f, {bn + "@t", "s@t", "a@t"}, nthreads);
            size_t r = 0;
            for (int i = g.first; i <= g.second; i++)
                for (auto& row : st[i].rows) {
                    sym::check(d.getD(0, r) == row.b, "number in an aggregated frame");
                    sym::check(d.getS(1, r) == row.s, "string in an aggregated frame");
                    sym::check(d.getD(2, r) == row.a, "integer in an aggregated frame");
                    r++;
                }
        }
        if (ops & 2) {
            eckit::Buffer b = f.encodedData();
            sym::check(b.size() == st[g.second].to - st[g.first].from && memcmp(b.data(), file.data() + st[g.first].from, b.size()) == 0, "encodedData() of an aggregated frame");
        }
        if (ops & 4) {
            std::map<std::string, std::string> want;
            for (int i = g.first; i <= g.second; i++) want.insert(st[i].props.begin(), st[i].props.end());
            sym::check(f.properties() == want, "properties of an aggregated frame");
        }
        if (ops & 8) {
            Span sp = f.span({"s@t", s0.kind == OTHERNAME ? "bb@t" : "b@t"}, false);
            std::set<std::string> ws; std::set<double> wd;
            for (int i = g.first; i <= g.second; i++) for (auto& row : st[i].rows) { ws.insert(row.s); wd.insert(row.b); }
            sym::check(sp.getStringValues("s@t") == ws, "span of strings in an aggregated frame");
            if (s0.kind == OTHERTYPE) { std::set<long> wl(wd.begin(), wd.end()); sym::check(sp.getIntegerValues("b@t") == wl, "span of integers in an aggregated frame"); }
            else sym::check(sp.getRealValues(s0.kind == OTHERNAME ? "bb@t" : "b@t") == wd, "span of numbers in an aggregated frame");
            sym::check((long long)sp.offset() == (long long)f.offset() && (long long)sp.length() == (long long)f.length(), "position of the span of an aggregated frame");
        }
    }
    sym::check(!rd.next(), "extra aggregated frame");
    sym::reach("done");
}
SYM_CASE(two) { run(2, NKIND - 1, 2, false, 1, 15); }
SYM_CASE(three) { run(3, WIDER, 1, false, 1, 5); }
SYM_CASE(four) { run(4, REORDERED, 1, false, 1, 3); }
SYM_CASE(limit) { run(3, REORDERED, 2, true, 1, 1); }
SYM_CASE(zerothreads) { run(2, REORDERED, 1, false, 0, 1); }
