// C09: frames with inconsistent contents are refused with an exception or decoded as stored: never read or written outside
// the buffers, never an endless loop, never rows that the frame's bytes do not hold.
#include "enc.h"
#include "odbfile.h"
#include "odc/Reader.h"
#include "odc/core/MetaData.h"
#include "odc/ODBAPISettings.h"
using namespace hs;

// ---- row data -------------------------------------------------------------------------------------------------------
// columns: i int8 (min 10), [m int16_missing], s string table; the oracle parses the same bytes
struct Row { double i, m; std::string s; };
struct Parsed { std::vector<Row> rows; bool complete = true; };
static Parsed parse(const FFrame& f, const std::vector<std::string>& words, bool withM, bool wide) {
    Parsed o;
    const std::vector<char>& b = f.data.v;
    size_t p = 0, n = b.size(), N = withM ? 3 : 2;
    Row cur{10 - 10 + 7., -5, ""};      // missing values (strings: set below)
    auto u8 = [&](size_t k) { return (unsigned)(unsigned char)b[k]; };
    auto u16 = [&](size_t k) { return f.swap ? u8(k) << 8 | u8(k + 1) : u8(k + 1) << 8 | u8(k); };
    for (int r = 0; r < f.rows; r++) {
        o.complete = false;
        if (n - p < 2) return o;
        unsigned mk = u8(p) * 256 + u8(p + 1);
        p += 2;
        if (mk > N) return o;
        for (unsigned c = mk; c < N; c++) {
            if (c == 0) { if (n - p < 1) return o; cur.i = 10 + (double)u8(p); p += 1; }
            else if (withM && c == 1) { if (n - p < 2) return o; unsigned v = u16(p); cur.m = v == 65535 ? -5 : (double)v - 3; p += 2; }
            else {
                size_t w = wide ? 2 : 1;
                if (n - p < w) return o;
                unsigned v = wide ? u16(p) : u8(p);
                p += w;
                if (v >= words.size()) return o;
                for (size_t k = 0; k < words.size(); k++) if (v == k) cur.s = words[k];
            }
        }
        o.rows.push_back(cur);
        o.complete = true;
    }
    if (f.rows == 0) o.complete = true;
    return o;
}
static FFrame shape(bool swap, bool withM, bool wide, std::vector<std::string> words) {
    FFrame f(swap);
    FCol s = fcol("s@t", T_STRING, wide ? "int16_string" : "int8_string");
    s.strings = words;
    f.cols.push_back(fcol("i@t", T_INT, "int8", 10, 265, 7));
    if (withM) f.cols.push_back(fcol("m@t", T_INT, "int16_missing", -3, 100, -5, 1));
    f.cols.push_back(s);
    return f;
}
enum { DECODE, SPAN, ROWS, DATA, AGGREGATED };
static void use(const std::vector<char>& file, const Parsed& o, const FFrame& f, int consumer, bool withM, size_t skipRows = 0) {
    Mem m(file);
    m.openForRead();
    bool refused = false;
    size_t got = 0;
    try {
        if (consumer == ROWS) {
            odc::Reader rd(m);
            auto end = rd.end();
            size_t k = 0;
            for (auto it = rd.begin(); it != end; ++it, ++k) {
                if (k < skipRows) continue;
                sym::check(got < o.rows.size(), "a row was delivered that the frame's bytes do not hold");
                const Row& r = o.rows[got++];
                sym::check(it->data(0) == r.i, "integer of a row of a damaged frame");
                if (withM) sym::check(it->data(1) == r.m, "integer of a row of a damaged frame (2)");
                (void)it->string(withM ? 2 : 1);
            }
        } else {
            odc::api::Reader rd(m, false);
            odc::api::Frame fr = rd.next();
            while (fr && skipRows) { skipRows -= fr.rowCount(); fr = rd.next(); }
            sym::check(bool(fr), "frame");
            std::vector<std::string> nm = {"i@t", "s@t"};
            if (withM) nm.push_back("m@t");
            if (consumer == DECODE) {
                Dec d(fr, nm);
                sym::check(o.complete, "rows were decoded that the frame's bytes do not hold");
                for (size_t r = 0; r < o.rows.size(); r++) {
                    sym::check(d.getD(0, r) == o.rows[r].i, "integer decoded");
                    if (withM) sym::check(d.getD(2, r) == o.rows[r].m, "integer decoded (2)");
                    if (r || o.rows[r].s.size()) sym::check(d.getS(1, r) == o.rows[r].s || o.rows[r].s.empty(), "string decoded");
                }
                got = o.rows.size();
            } else {
                odc::api::Span s = fr.span(nm, false);
                sym::check(o.complete, "a span was reported for rows that the frame's bytes do not hold");
                for (const Row& r : o.rows) sym::check(s.getIntegerValues("i@t").count((long)r.i) == 1, "value missing in the span");
                got = o.rows.size();
            }
        }
    } catch (std::exception&) { refused = true; }
    if (o.complete) sym::check(!refused && got == o.rows.size(), "a well-formed frame was refused");
    else sym::check(refused, "damaged row data was not reported");
    sym::reach("done");
}
static void rowdata(int consumer, int rows, int maxBytes, bool withM, bool wide) {
    FFrame f = shape(sym::flag(), withM, wide, {"one", "two-and-more"});
    f.rows = rows;
    int n = sym::choice(2, maxBytes);
    std::vector<uint8_t> b(n);
    sym::bytes(b.data(), n);
    f.data.raw(b.data(), n);
    Parsed o = parse(f, {"one", "two-and-more"}, withM, wide);
    use(f.bytes(), o, f, consumer, withM);
}
SYM_CASE(rows_decode) { rowdata(DECODE, 2, 9, false, false); }
SYM_CASE(rows_span) { rowdata(SPAN, 2, 9, false, false); }
SYM_CASE(rows_reader) { rowdata(ROWS, 2, 9, false, false); }
SYM_CASE(rows3_decode) { rowdata(DECODE, 3, 12, false, true); }
SYM_CASE(rows3_reader) { rowdata(ROWS, 3, 12, false, true); }
SYM_CASE(wide_decode) { rowdata(DECODE, 2, 14, true, true); }
SYM_CASE(wide_span) { rowdata(SPAN, 2, 14, true, true); }
SYM_CASE(wide_reader) { rowdata(ROWS, 2, 14, true, true); }
// only some of the columns are decoded, the others are skipped: they must be there nevertheless
SYM_CASE(subset) {
    bool withM = sym::flag(), wide = sym::flag();
    FFrame f = shape(sym::flag(), withM, wide, {"one", "two-and-more"});
    f.rows = sym::choice(1, 2);
    int n = sym::choice(2, 12);
    std::vector<uint8_t> b(n);
    sym::bytes(b.data(), n);
    f.data.raw(b.data(), n);
    // the same parse, where any index is as good as another
    bool complete = true;
    std::vector<double> want;
    size_t p = 0, N = withM ? 3 : 2;
    double cur = 7;
    for (int r = 0; r < f.rows && complete; r++) {
        if (n - p < 2) { complete = false; break; }
        unsigned mk = b[p] * 256 + b[p + 1];
        p += 2;
        if (mk > N) { complete = false; break; }
        for (unsigned c = mk; c < N; c++) {
            size_t w = c == 0 ? 1 : c == N - 1 && !wide ? 1 : 2;
            if (n - p < w) { complete = false; break; }
            if (c == 0) cur = 10 + (double)b[p];
            p += w;
        }
        want.push_back(cur);
    }
    bool span = sym::flag();
    Mem m(f.bytes());
    m.openForRead();
    bool refused = false;
    try {
        odc::api::Reader rd(m, false);
        odc::api::Frame fr = rd.next();
        if (span) { odc::api::Span s = fr.span({"i@t"}, false); sym::check(complete, "a span was reported for rows that the frame's bytes do not hold"); }
        else {
            Dec d(fr, {"i@t"});
            sym::check(complete, "rows were decoded that the frame's bytes do not hold");
            for (size_t r = 0; r < want.size(); r++) sym::check(d.getD(0, r) == want[r], "integer decoded");
        }
    } catch (std::exception&) { refused = true; }
    sym::check(refused == !complete, complete ? "a well-formed frame was refused" : "damaged row data was not reported");
    sym::reach("done");
}
// a longer frame before: nothing of it may be taken for the rows the damaged frame lacks
SYM_CASE(after_longer) {
    int consumer = sym::choice(0, 2);
    bool sw = sym::flag();
    FFrame a = shape(sw, false, false, {"one", "two-and-more"});
    a.rows = 6;
    for (int r = 0; r < 6; r++) { a.data.marker(0); a.data.u8(r); a.data.u8(r & 1); }
    FFrame f = shape(sw, false, false, {"one", "two-and-more"});
    f.rows = sym::choice(1, 3);
    int n = sym::choice(2, 9);
    std::vector<uint8_t> b(n);
    for (int k = 0; k < n; k++) b[k] = k % 4 == 2 || k % 4 == 1 ? sym::any<uint8_t>() : 0;
    f.data.raw(b.data(), n);
    Parsed o = parse(f, {"one", "two-and-more"}, false, false);
    std::vector<char> file = a.bytes();
    append(file, f.bytes());
    use(file, o, f, consumer, false, 6);
}

// ---- string tables --------------------------------------------------------------------------------------------------
SYM_CASE(strtab) {
    int consumer = sym::choice(0, 2);
    FFrame f = shape(sym::flag(), false, sym::flag(), {"one", "two-and-more", "three"});
    FCol& s = f.cols[1];
    int k = sym::choice(0, 3);
    s.strings.resize(k);
    for (int i = 0; i < k; i++) { s.index.push_back(i == 1 ? i : sym::any<int32_t>()); s.cnt.push_back(sym::any<int32_t>()); }
    f.rows = 1;
    uint8_t w = sym::any<uint8_t>();
    f.data.marker(0); f.data.u8(3); if (s.codec == "int16_string") f.data.u16(w); else f.data.u8(w);
    bool ok = w < k;
    std::vector<std::string> tab(k);
    for (int i = 0; i < k; i++) {
        if (s.index[i] < 0 || s.index[i] >= k) ok = false;
        for (int q = 0; q < k; q++) if (s.index[i] == q) tab[q] = s.strings[i];
    }
    std::string want;
    for (int q = 0; q < k; q++) if (w == q) want = tab[q];
    Mem m(f.bytes());
    m.openForRead();
    bool refused = false;
    try {
        if (consumer == ROWS) {
            odc::Reader rd(m);
            auto it = rd.begin();
            sym::check(ok, "a string that the table does not hold was delivered");
            sym::check(it->string(1) == want, "string of the table");
        } else {
            odc::api::Reader rd(m, false);
            odc::api::Frame fr = rd.next();
            if (consumer == DECODE) { Dec d(fr, {"s@t"}); sym::check(ok, "a string that the table does not hold was decoded"); sym::check(d.getS(0, 0) == want, "string decoded"); }
            else { odc::api::Span sp = fr.span({"s@t"}, false); sym::check(ok, "a string that the table does not hold is in the span"); sym::check(sp.getStringValues("s@t").count(want) == 1, "string in the span"); }
        }
    } catch (std::exception&) { refused = true; }
    sym::check(ok || refused, "a bad string table was not reported");
    if (ok) sym::check(!refused, "a good string table was refused");
    sym::reach("done");
}

// ---- header fields --------------------------------------------------------------------------------------------------
// two frames; one field of the first one's header is replaced by any value (and the digest recomputed)
static size_t gOff, gLen;
static char gVal[8];
static void doPatch(std::vector<char>& v) { for (size_t i = 0; i < gLen; i++) v[gOff + i] = gVal[i]; }
static int ops;
static void op() { if (++ops > 3000) sym::fail("reading a damaged file does not end"); }

static FFrame rich(bool swap) {
    FFrame f(swap);
    f.rows = 2;
    f.props["k"] = "vv";
    FCol b = fcol("b@t", T_BITFIELD, "int8", 0, 255);
    b.bfNames = {"x"}; b.bfSizes = {3};
    FCol s = fcol("s@t", T_STRING, "int8_string");
    s.strings = {"one", "two-and-more"};
    FCol l = fcol("l@t", T_STRING, "long_constant_string");
    l.longConst = "a long constant";
    f.cols = {b, s, l};
    for (int r = 0; r < 2; r++) { f.data.marker(0); f.data.u8(40 + r); f.data.u8(r); }
    return f;
}
static const int NF = 18;
// offset and width of field k in the variable part of rich()
static void field(int k, size_t& off, size_t& len) {
    FFrame f = rich(false);
    f.body();
    size_t c0 = f.oCol[0], c1 = f.oCol[1], c2 = f.oCol[2];
    len = 4;
    switch (k) {
        case 0: off = 0; len = 8; return;                 // data size
        case 1: off = 8; len = 8; return;                 // previous frame
        case 2: off = 16; len = 8; return;                // rows
        case 3: off = 24; return;                         // number of flags
        case 4: off = f.oProps; return;                   // number of properties
        case 5: off = f.oProps + 4; return;               // length of a key
        case 6: off = f.oProps + 9; return;               // length of a value
        case 7: off = f.oNcols; return;                   // number of columns
        case 8: off = c0; return;                         // length of a column name
        case 9: off = c0 + 7; return;                     // type
        case 10: off = c0 + 11; return;                   // number of bitfield names
        case 11: off = c0 + 15; return;                   // length of a bitfield name
        case 12: off = c0 + 20; return;                   // number of bitfield sizes
        case 13: off = c0 + 24; return;                   // a bitfield size
        case 14: off = c0 + 28; return;                   // length of a codec name
        case 15: off = c1 + 11 + 4 + 11 + 28; return;     // number of strings
        case 16: off = c1 + 11 + 4 + 11 + 32; return;     // length of a string
        case 17: off = c2 + 11 + 4 + 20 + 28; return;     // length of the long constant
    }
}
static void consume(const std::vector<char>& file, int consumer, bool estimates) {
    Mem m(file);
    m.estimates = estimates;
    m.openForRead();
    ops = 0;
    m.onOp = op;
    try {
        if (consumer == ROWS) {
            odc::Reader rd(m);
            auto end = rd.end();
            long n = 0;
            for (auto it = rd.begin(); it != end; ++it) {
                sym::check(++n <= 1000, "more rows than the file can hold");
                for (size_t c = 0; c < it->columns().size(); c++) {
                    if (it->columns()[c]->type() == odc::api::STRING) (void)it->string(c);
                    else (void)it->data(c);
                }
            }
        } else {
            odc::api::Reader rd(m, consumer == AGGREGATED);
            long n = 0;
            while (odc::api::Frame fr = rd.next()) {
                sym::check(++n <= 20, "more frames than the file can hold");
                sym::check((long)fr.offset() >= 0 && (long)fr.length() > 0, "frame with an impossible position or length");
                sym::check(consumer == AGGREGATED || fr.rowCount() <= (size_t)std::numeric_limits<int64_t>::max(), "frame with a negative number of rows");
                std::vector<std::string> nm;
                for (auto& c : fr.columnInfo()) nm.push_back(c.name);
                if (consumer == DATA) { if ((long)fr.length() <= (long)file.size()) sym::check(fr.encodedData().size() == (size_t)(long)fr.length(), "length of the encoded data"); continue; }
                if (consumer == SPAN) { (void)fr.span(nm, false); continue; }
                if (fr.rowCount() <= 8) Dec d(fr, nm);
            }
        }
    } catch (std::exception&) {}
}
static void headerField(int lo, int hi, bool est = true) {
    int consumer = sym::choice(0, 4);
    bool sw = sym::flag();
    FFrame f = rich(sw), g = rich(sw);
    field(sym::choice(lo, hi), gOff, gLen);
    sym::bytes(gVal, gLen);
    f.patch = doPatch;
    std::vector<char> file = f.bytes();
    append(file, g.bytes());
    consume(file, consumer, est);
    sym::reach("done");
}
SYM_CASE(f_sizes) { headerField(0, 2, sym::flag()); }
SYM_CASE(f_props) { headerField(3, 6); }
SYM_CASE(f_column) { headerField(7, 9); }
SYM_CASE(f_bits) { headerField(10, 13); }
SYM_CASE(f_codec) { headerField(14, 15); }
SYM_CASE(f_strings) { headerField(16, 17); }
SYM_CASE(headersize) {
    int consumer = sym::choice(0, 2);
    FFrame f = rich(sym::flag());
    f.haveHeaderSize = true;
    f.headerSize = sym::any<int32_t>();
    std::vector<char> file = f.bytes();
    append(file, rich(false).bytes());
    consume(file, consumer, true);
    sym::reach("done");
}
// any single byte of the variable part
SYM_CASE(byte) {
    int consumer = sym::choice(0, 2);
    FFrame f = rich(false);
    size_t n = f.body().v.size();
    gOff = sym::choice(0, 255);
    gLen = 1;
    sym::assume(gOff < n);
    gVal[0] = sym::any<char>();
    f.patch = doPatch;
    std::vector<char> file = f.bytes();
    append(file, rich(false).bytes());
    consume(file, consumer, true);
    sym::reach("done");
}
// a codec that does not belong to the column's type
SYM_CASE(codecs) {
    static const char* names[] = {"constant", "constant_string", "long_constant_string", "constant_or_missing", "real_constant_or_missing", "chars",
                                  "int8", "int16", "int32", "int8_missing", "int16_missing", "int8_string", "int16_string", "short_real", "short_real2", "long_real"};
    int consumer = sym::choice(0, 2);
    if (sym::flag()) odc::ODBAPISettings::instance().treatIntegersAsDoubles(false);
    FFrame f(sym::flag());
    FCol c = fcol("c@t", sym::choice(0, 6), names[sym::choice(0, 15)], 1, 2, 3);
    c.strings = {"one", "two-and-more than that"};
    c.longConst = "a long constant string";
    f.cols = {c, fcol("z@t", T_INT, "int8", 0, 1)};
    f.rows = 2;
    std::vector<uint8_t> b(24);
    for (int i = 2; i < 6; i++) b[i] = sym::any<uint8_t>();
    f.data.raw(b.data(), 24);
    consume(f.bytes(), consumer, true);
    odc::ODBAPISettings::instance().treatIntegersAsDoubles(true);
    sym::reach("done");
}
