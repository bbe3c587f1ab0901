// C02: string columns survive encode -> decode (value = the bytes up to the first NUL or the column width)
#include <cstdlib>
#include "enc.h"
using namespace hs;
using namespace odc::api;

static std::string want(Tab& t, size_t c, size_t r) {
    const char* p = (const char*)&t.at(c, r);
    size_t n = 0;
    while (n < 8 * t.width(c) && p[n]) n++;
    return std::string(p, n);
}
static void run(Tab& t, const char* codec = nullptr) {
    Mem m;
    try { encode(t, m); }
    catch (std::exception& e) { sym::fail("encode refused a string table"); }
    if (codec) sym::check(std::string(m.d->begin(), m.d->end()).find(codec) != std::string::npos, "expected codec not in the header");
    Mem in(m.d);
    in.openForRead();
    Reader r(in);
    Frame f = r.next();
    sym::check(!!f && f.rowCount() == t.rows && f.columnCount() == t.cols.size(), "frame shape");
    Dec d(f, names(t));
    for (size_t c = 0; c < t.cols.size(); c++) {
        if (t.cols[c].type != STRING) {
            for (size_t i = 0; i < t.rows; i++) sym::check(sameNum(d.getD(c, i), t.getD(c, i)), "numeric column beside strings changed");
            continue;
        }
        sym::check(d.w[c] <= t.width(c), "decoded width exceeds the encoded width");
        for (size_t i = 0; i < t.rows; i++) {
            std::string e = want(t, c, i);
            const char* g = (const char*)&d.v[c][i * d.w[c]];
            sym::check(8 * d.w[c] >= e.size(), "decoded width too small for a value");
            sym::check(memcmp(g, e.data(), e.size()) == 0, "string bytes changed");
            for (size_t k = e.size(); k < 8 * d.w[c]; k++) sym::check(g[k] == 0, "decoded string is not NUL padded");
        }
    }
    sym::reach("done");
}
template <int R, int W> static void str_rows() {
    Tab t; t.rows = R;
    size_t c = t.add("s", STRING, 8 * W);
    for (int i = 0; i < R; i++) sym::bytes(&t.at(c, i), 8 * W);
    run(t);
}
SYM_CASE(w8r1) { str_rows<1, 1>(); }
SYM_CASE(w8r2) { str_rows<2, 1>(); }
SYM_CASE(w16r1) { str_rows<1, 2>(); }
SYM_CASE(w16r2) { str_rows<2, 2>(); }
SYM_CASE(w24r2) { str_rows<2, 3>(); }
SYM_CASE(w8r3) { str_rows<3, 1>(); }

// three rows, wide column, a few symbolic bytes around the 8-byte boundary
SYM_CASE(w16r3) {
    Tab t; t.rows = 3;
    size_t c = t.add("s", STRING, 16);
    for (int i = 0; i < 3; i++) {
        char* p = (char*)&t.at(c, i);
        memcpy(p, "abcdefghijklmnop", 16);
        sym::bytes(p + 7, 2);
        sym::bytes(p + 15, 1);
    }
    run(t);
}
// one distinct value, 8/16/24 bytes, with and without the long constant string codec
SYM_CASE(constants) {
    int w = sym::choice(1, 3);
    bool lc = sym::flag();
    if (lc) setenv("ODC_ENABLE_WRITING_LONG_STRING_CODEC", "1", 1); else unsetenv("ODC_ENABLE_WRITING_LONG_STRING_CODEC");
    Tab t; t.rows = 3;
    size_t c = t.add("s", STRING, 8 * w);
    std::vector<char> b(8 * w, 'q');
    sym::bytes(&b[0], 1);
    sym::bytes(&b[8 * w - 2], 2);
    for (int i = 0; i < 3; i++) memcpy(&t.at(c, i), b.data(), 8 * w);
    run(t);
}
// an empty value in every row of a wide column, long constant string codec enabled
SYM_CASE(emptyconst) {
    bool lc = sym::flag();
    if (lc) setenv("ODC_ENABLE_WRITING_LONG_STRING_CODEC", "1", 1); else unsetenv("ODC_ENABLE_WRITING_LONG_STRING_CODEC");
    Tab t; t.rows = 2;
    size_t c = t.add("s", STRING, 16);
    sym::bytes(((char*)&t.at(c, 0)) + 1, 3);   // whatever follows the NUL
    sym::bytes(((char*)&t.at(c, 1)) + 1, 3);
    run(t);
}
// the table of distinct values around the 8-bit / 16-bit index limit
SYM_CASE(distinct) {
    int n = sym::choice(254, 257);
    Tab t; t.rows = n + 1;
    size_t c = t.add("s", STRING, 8), e = t.add("k", INTEGER);
    for (int i = 0; i < n; i++) {
        char b[9]; snprintf(b, sizeof b, "v%05d", i * 3);
        memcpy(&t.at(c, i), b, 6);
        t.setD(e, i, i % 7);
    }
    char* p = (char*)&t.at(c, n);
    memcpy(p, "v007", 4);
    sym::bytes(p + 4, 3);
    t.setD(e, n, 3);
    run(t, n + 1 > 257 ? "int16_string" : nullptr);
}
// strings of two widths beside numeric columns
SYM_CASE(mixed) {
    Tab t; t.rows = 2;
    size_t a = t.add("a@t", STRING, 8), b = t.add("n", INTEGER), c = t.add("b@t", STRING, 16), d = t.add("x", DOUBLE);
    for (int i = 0; i < 2; i++) {
        memcpy(&t.at(a, i), "xyzuvw", 6);
        memcpy(&t.at(c, i), "0123456789abcdef", 16);
        sym::bytes(((char*)&t.at(a, i)) + 5, 3);
        sym::bytes(((char*)&t.at(c, i)) + 8, 1);
        t.setD(b, i, sym::any<int8_t>());
        t.setD(d, i, i ? 1.5 : 2.5);
    }
    run(t);
}
