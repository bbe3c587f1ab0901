// C15: what is written row by row (odc::Writer) is read back, however many rows fit in the buffer
#include "enc.h"
#include "odc/Reader.h"
#include "odc/Writer.h"
#include "odc/core/MetaData.h"
using namespace hs;
namespace oa = odc::api;

struct Row { double i, r, d, b; char s[16]; };
static const int NC = 5;
enum { I, S, R, D, B };
static const double IMISS = 2147483647., RMISS = -2147483647.;

static double intValue() { static const double v[] = {5, 300, IMISS, 0}; return v[sym::choice(0, 3)]; }
static double realValue() { return sym::choice(0, 1) ? RMISS : (double)sym::any<float>(); }

// custom: another missing value for the integer and the real column (or none)
static void define(odc::Writer<>::iterator& it, size_t buffer, bool custom, double mi, double mr) {
    it->setNumberOfColumns(NC);
    it->setColumn(I, "i@t", oa::INTEGER);
    it->setColumn(S, "s@t", oa::STRING);
    it->setColumn(R, "r@t", oa::REAL);
    it->setColumn(D, "d@t", oa::DOUBLE);
    eckit::sql::BitfieldDef bd;
    bd.first = {"x", "y"}; bd.second = {1, 2};
    it->setBitfieldColumn(B, "b@t", oa::BITFIELD, bd);
    it->columns()[S]->dataSizeDoubles(2);
    if (custom) { it->missingValue(I, mi); it->missingValue(R, mr); }
    (**it).rowsBufferSize(buffer);
    it->writeHeader();
}
static void set(odc::Writer<>::iterator& it, const Row& w, unsigned mask = 31) {
    if (mask >> I & 1) (*it)[I] = w.i;
    if (mask >> S & 1) memcpy(&(*it)[S], w.s, 16);
    if (mask >> R & 1) (*it)[R] = w.r;
    if (mask >> D & 1) (*it)[D] = w.d;
    if (mask >> B & 1) (*it)[B] = w.b;
}
static void expect(odc::Reader::iterator& it, const Row& w, const char* m) {
    (void)m;
    sym::check(it->columns().size() == NC, "number of columns read back");
    sym::check(sameNum(it->data(I), w.i), "integer of a written row read back differently");
    sym::check(sameNum(it->data(R), w.r), "real of a written row read back differently");
    sym::check(sameNum(it->data(D), w.d), "double of a written row read back differently");
    sym::check(sameNum(it->data(B), w.b), "bitfield of a written row read back differently");
    sym::check(it->string(S) == std::string(w.s, strnlen(w.s, 16)), "string of a written row read back differently");
}
static void readBack(Mem& out, std::vector<Row>& rows, bool custom, double mi, double mr) {
    Mem in(out.d);
    odc::Reader rd(in);
    size_t n = 0;
    auto end = rd.end();
    for (auto it = rd.begin(); it != end; ++it, ++n) {
        sym::check(n < rows.size(), "more rows than written");
        expect(it, rows[n], "");
        sym::check(it->missingValue(I) == (custom ? mi : IMISS), "missing value of the integer column");
        sym::check(it->missingValue(R) == (custom ? mr : RMISS), "missing value of the real column");
        if (rows[n].i == (custom ? mi : IMISS)) sym::check(it->isMissing(I), "a missing integer is not reported missing");
        else sym::check(!it->isMissing(I), "a present integer is reported missing");
        sym::check(it->columns()[S]->dataSizeDoubles() <= 2, "width of the string column");
        auto& bf = it->columns()[B]->bitfieldDef();
        sym::check(bf.first.size() == 2 && bf.first[0] == "x" && bf.first[1] == "y" && bf.second[0] == 1 && bf.second[1] == 2, "bitfield members");
    }
    sym::check(n == rows.size(), "rows written are missing");
}
static Row row(int r, unsigned free) {
    Row w; memset(&w, 0, sizeof w);
    w.i = free & 1 ? intValue() : 5 + r;
    w.r = free & 2 ? realValue() : 2.5;
    w.d = free & 4 ? sym::any<double>() : 1. + r;
    w.b = free & 8 ? (double)(sym::any<uint8_t>() & 7) : 3;
    if (free & 16) {
        w.i = 5; w.b = 3 + r;
        char c = sym::any<char>();
        strcpy(w.s, "abcdefgh");
        int k = sym::choice(0, 3);               // differ in the first or the second word, or be empty
        if (k == 0) w.s[0] = c; else if (k == 1) w.s[8] = c; else if (k == 2) { w.s[0] = c; w.s[8] = 'x'; } else memset(w.s, 0, 16);
        if (!w.s[0]) memset(w.s, 0, 16);
    }
    else strcpy(w.s, r & 1 ? "" : "wide string");
    return w;
}
static void roundtrip(int nrows, int maxBuffer, unsigned free) {
    std::vector<Row> rows;
    Mem out;
    {
        odc::Writer<> w(out);
        auto it = w.begin();
        define(it, sym::choice(1, maxBuffer), false, 0, 0);
        for (int r = 0; r < nrows; r++) {
            rows.push_back(row(r, free));
            set(it, rows.back());
            ++it;
        }
    }
    readBack(out, rows, false, 0, 0);
    sym::reach("done");
}
SYM_CASE(ints) { roundtrip(3, 4, 1); }
SYM_CASE(reals) { roundtrip(2, 3, 2 | 4); }
SYM_CASE(bits) { roundtrip(3, 3, 8); }
SYM_CASE(strings) { roundtrip(3, 3, 16); }
SYM_CASE(five) { roundtrip(sym::choice(0, 5), 6, 0); }

// first rows that equal the initial row in some columns
SYM_CASE(initial) {
    std::vector<Row> rows;
    Mem out;
    {
        odc::Writer<> w(out);
        auto it = w.begin();
        define(it, sym::choice(1, 3), false, 0, 0);
        for (int r = 0; r < 3; r++) {
            Row v = row(r, 0);
            int k = r == 2 ? 31 : sym::choice(0, 31);
            if (k & 1) v.i = IMISS;
            if (k & 2) memset(v.s, 0, 16); else strcpy(v.s, "12345678");
            if (k & 4) v.r = RMISS;
            if (k & 8) v.d = r ? 0 : RMISS;
            if (k & 16) v.b = 0;
            rows.push_back(v);
            set(it, v);
            ++it;
        }
    }
    readBack(out, rows, false, 0, 0);
    // the frame API reads the same
    Mem in(out.d);
    in.openForRead();
    oa::Reader rd(in, true);
    auto f = rd.next();
    Dec d(f, {"b@t", "d@t", "r@t", "s@t", "i@t"});
    sym::check(d.rows == rows.size(), "rows seen by the frame API");
    for (size_t r = 0; r < rows.size(); r++) {
        sym::check(d.getD(0, r) == rows[r].b && d.getD(1, r) == rows[r].d && d.getD(2, r) == rows[r].r && d.getD(4, r) == rows[r].i, "frame API: number of a written row");
        sym::check(d.getS(3, r) == std::string(rows[r].s, strnlen(rows[r].s, 16)), "frame API: string of a written row");
    }
    sym::reach("done");
}
// cells that are not set again keep the value of the row before, whatever the size of the buffer
SYM_CASE(sticky) {
    std::vector<Row> rows;
    Mem out;
    {
        odc::Writer<> w(out);
        auto it = w.begin();
        define(it, sym::choice(1, 4), false, 0, 0);
        Row cur = row(0, 0);
        for (int r = 0; r < 3; r++) {
            unsigned mask = r ? sym::choice(0, 31) : 31;
            Row v = row(r, 0);
            v.r = 7.25 + r; v.b = r + 1;
            if (mask >> I & 1) cur.i = v.i;
            if (mask >> S & 1) memcpy(cur.s, v.s, 16);
            if (mask >> R & 1) cur.r = v.r;
            if (mask >> D & 1) cur.d = v.d;
            if (mask >> B & 1) cur.b = v.b;
            rows.push_back(cur);
            set(it, v, mask);
            ++it;
        }
    }
    readBack(out, rows, false, 0, 0);
    sym::reach("done");
}
// other missing values are kept in every frame that is written
SYM_CASE(missing) {
    std::vector<Row> rows;
    Mem out;
    double mi = sym::flag() ? -99 : 7, mr = sym::flag() ? -1.5 : 1e30;
    {
        odc::Writer<> w(out);
        auto it = w.begin();
        define(it, sym::choice(1, 3), true, mi, mr);
        for (int r = 0; r < 3; r++) {
            Row v = row(r, 0);
            switch (sym::choice(0, 2)) { case 0: v.i = mi; break; case 1: v.i = IMISS; break; }
            switch (sym::choice(0, 2)) { case 0: v.r = mr; break; case 1: v.r = -2147483648.; break; }
            rows.push_back(v);
            set(it, v);
            ++it;
        }
    }
    readBack(out, rows, true, mi, mr);
    sym::reach("done");
}
// copying rows of one file to another (pass1), with a change of the columns in between
static size_t put(Mem& m, int other, std::vector<Row>& rows, int n, size_t buffer) {
    odc::Writer<> w(m, false);
    auto it = w.begin(false);
    it->setNumberOfColumns(other == 5 ? 3 : other ? 2 : NC);
    if (!other) define(it, buffer, false, 0, 0);
    else {
        it->setColumn(other == 3, "i@t", oa::INTEGER);
        it->setColumn(other != 3, "z@t", other == 1 ? oa::DOUBLE : oa::INTEGER);
        if (other == 4) it->missingValue(1, -7);
        if (other == 5) it->setColumn(2, "y@t", oa::INTEGER);
        (**it).rowsBufferSize(buffer);
        it->writeHeader();
    }
    for (int r = 0; r < n; r++) {
        Row v = row(r, 1);
        if ((other == 2 || other == 4) && r) v.d = -7;   // missing in layout 4, a value in layout 2
        if (other == 1) v.d += 0.5;
        rows.push_back(v);
        if (other) { (*it)[other == 3] = v.i; (*it)[other != 3] = v.d; if (other == 5) (*it)[2] = 17 + r; }
        else set(it, v);
        ++it;
    }
    it->close();
    return n;
}
SYM_CASE(copy) {
    Mem src;
    std::vector<Row> rows;
    std::vector<int> kind;
    int nf = sym::choice(1, 2);
    for (int f = 0; f < nf; f++) {
        int o = sym::choice(0, 5);
        size_t k = put(src, o, rows, sym::choice(0, 2), 2);
        for (size_t i = 0; i < k; i++) kind.push_back(o);
    }
    Mem out;
    Mem in(src.d);
    sym::assume(!rows.empty());
    odc::Reader rd(in);
    auto b = rd.begin();
    auto e = rd.end();
    unsigned long n;
    {
        odc::Writer<> w(out);
        auto it = w.begin();
        (**it).rowsBufferSize(sym::choice(1, 3));
        n = it->pass1(b, e);
    }
    sym::check(n == rows.size(), "number of rows reported as copied");
    Mem back(out.d);
    odc::Reader r2(back);
    size_t k = 0;
    auto e2 = r2.end();
    for (auto it = r2.begin(); it != e2; ++it, ++k) {
        sym::check(k < rows.size(), "more rows than copied");
        if (kind[k]) {
            sym::check(it->columns().size() == (kind[k] == 5 ? 3u : 2u) && it->columns()[kind[k] != 3]->name() == "z@t" && it->columns()[kind[k] != 3]->type() == (kind[k] == 1 ? oa::DOUBLE : oa::INTEGER), "columns of the copied row");
            sym::check(it->data(kind[k] == 3) == rows[k].i && it->data(kind[k] != 3) == rows[k].d, "copied row differs");
            if (kind[k] == 5) sym::check(it->columns()[2]->name() == "y@t" && it->data(2) >= 17 && it->data(2) <= 18, "last cell of the copied row differs");
            sym::check(it->isMissing(kind[k] != 3) == (kind[k] == 4 && rows[k].d == -7), "missing in the copied row");
        }
        else expect(it, rows[k], "");
    }
    sym::check(k == rows.size(), "rows missing in the copy");
    sym::reach("done");
}
// string columns that become wider (or narrower) between the rows
SYM_CASE(grow) {
    struct R2 { double i, d; std::string s, t; };
    std::vector<R2> rows;
    std::vector<int> word;                      // words of s when the row was written
    Mem out;
    {
        odc::Writer<> w(out);
        auto it = w.begin();
        it->setNumberOfColumns(4);
        it->setColumn(0, "i@t", oa::INTEGER);
        it->setColumn(1, "s@t", oa::STRING);
        it->setColumn(2, "d@t", oa::DOUBLE);
        it->setColumn(3, "t@t", oa::STRING);
        int ws = sym::choice(1, 2), wt = 1;
        it->columns()[1]->dataSizeDoubles(ws);
        (**it).rowsBufferSize(sym::choice(1, 3));
        it->writeHeader();
        for (int part = 0; part < 3; part++) {
            if (part) {
                int g = sym::choice(0, 2);
                std::map<std::string, size_t> m;
                if (g != 1) m["s@t"] = ws = part == 2 && g == 0 ? 1 : ws + 1;
                if (g != 0) m["t@t"] = wt = wt + g;
                (**it).flushAndResetColumnSizes(m);
            }
            int n = sym::choice(part == 2 ? 1 : 0, 2);
            for (int r = 0; r < n; r++) {
                int k = (int)rows.size();
                R2 v{5. + k, 0.5 + k, std::string(8 * ws - (k & 1), 'a' + k), std::string(8 * wt - 2 * r, 'k' + k)};
                rows.push_back(v);
                word.push_back(ws);
                (*it)[0] = v.i; (*it)[2] = v.d;
                char b[64] = {0};
                memcpy(b, v.s.data(), v.s.size()); memcpy(&(*it)[1], b, 8 * ws);
                memset(b, 0, sizeof b);
                memcpy(b, v.t.data(), v.t.size()); memcpy(&(*it)[3], b, 8 * wt);
                ++it;
            }
        }
    }
    Mem in(out.d);
    odc::Reader rd(in);
    size_t k = 0;
    auto e = rd.end();
    for (auto it = rd.begin(); it != e; ++it, ++k) {
        sym::check(k < rows.size(), "more rows than written");
        sym::check(it->data(0) == rows[k].i && it->data(2) == rows[k].d, "number of a row among growing strings");
        sym::check(it->string(1) == rows[k].s && it->string(3) == rows[k].t, "string of a row among growing strings");
        sym::check((int)it->columns()[1]->dataSizeDoubles() <= word[k], "width of the string column");
    }
    sym::check(k == rows.size(), "rows written are missing");
    sym::reach("done");
}
